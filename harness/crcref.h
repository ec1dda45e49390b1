/* ECSS-E-70-41C annex B, bit by bit and octet by octet */
static uint16_t crc_ref(uint16_t c, const uint8_t *d, int n) {
    int i, k;
    for (i = 0; i < n; i++) {
        c ^= (uint16_t)(d[i] << 8);
        for (k = 0; k < 8; k++) c = (uint16_t)((c & 0x8000) ? (c << 1) ^ 0x1021 : c << 1);
    }
    return c;
}
static int add255(int a, int b) { int s = a + b; return s >= 255 ? s - 255 : s; }
static int oct255(int b) { return b == 255 ? 0 : b; }
static void iso_sums(const uint8_t *d, int n, int *a, int *b) {
    int i, x = 255, y = 255;     /* 255 and 0 are the same */
    for (i = 0; i < n; i++) { x += d[i]; y += x; }
    *a = x % 255; *b = y % 255;
}
static uint16_t iso_ref(const uint8_t *d, int n) {
    int a, b, x, y;
    iso_sums(d, n, &a, &b);
    x = 255 - add255(a, b);      /* makes the sum of sums zero */
    y = b == 0 ? 255 : b;        /* makes the sum zero */
    return (uint16_t)(x << 8 | y);
}
