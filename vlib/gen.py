"""Builds the compiler from /repo's working tree and runs it: the generated C is what the solver decides on."""
import os, subprocess, time
from vlib.core import REPO, VERIF

PROJ = "Antlr ST CommonTypes parseStg2 StgC StgAda StgScala StgVarious FrontEndAst BackendAst asn1scc asn1crt ADA_RTL2 asn1scala".split()
ENV = dict(os.environ, DOTNET_CLI_TELEMETRY_OPTOUT="1", DOTNET_NOLOGO="1", DOTNET_SKIP_FIRST_TIME_EXPERIENCE="1", MSBUILDDISABLENODEREUSE="1", NUGET_XMLDOC_MODE="skip",
           DOTNET_CLI_HOME="/tmp", HOME=os.environ.get("HOME", "/root"))


class GenError(Exception):
    pass


def build(dst):
    """Returns the path of asn1scc.dll built from the current tree."""
    os.makedirs(dst, exist_ok=True)
    files = subprocess.run(["git", "-C", REPO, "ls-files", "-z"] + PROJ, capture_output=True).stdout
    subprocess.run("cd %s && xargs -0 cp --parents -t %s 2>/dev/null" % (REPO, dst), shell=True, input=files)
    # files that are new in the working tree belong to it as well
    new = subprocess.run(["git", "-C", REPO, "ls-files", "-z", "-o", "--exclude-standard"] + PROJ, capture_output=True).stdout
    if new:
        subprocess.run("cd %s && xargs -0 cp --parents -t %s" % (REPO, dst), shell=True, input=new)
    subprocess.run(["cp", "-r", VERIF + "/shim", dst + "/shim"], check=True)
    for f, pkg, ref in (("FrontEndAst/FrontEndAst.fsproj", "FsToolkit.ErrorHandling", "FsToolkit\\FsToolkit.ErrorHandling.fsproj"), ("asn1scc/asn1scc.fsproj", "Argu", "Argu\\Argu.fsproj")):
        subprocess.run(["sed", "-i", '-E', 's#<PackageReference +Include="%s"[^>]*>#<ProjectReference Include="..\\\\shim\\\\%s" />#' % (pkg, ref.replace("\\", "\\\\")), dst + "/" + f], check=True)
    t = time.time()
    r = subprocess.run(["dotnet", "build", "asn1scc/asn1scc.fsproj", "-nologo", "-v:q", "-clp:ErrorsOnly", "-nodeReuse:false", "-p:NuGetAudit=false", "-p:RuntimeIdentifiers=",
                        "-p:UseSharedCompilation=false", "-p:RestoreSources=/usr/lib/dotnet/library-packs"], cwd=dst, env=ENV, capture_output=True, text=True)
    dll = dst + "/asn1scc/bin/Debug/net10.0/asn1scc.dll"
    if r.returncode or not os.path.exists(dll):
        raise GenError("the compiler does not build: " + (r.stdout + r.stderr)[-1500:])
    return dll, time.time() - t


def run(dll, files, out, opts):
    os.makedirs(out, exist_ok=True)
    r = subprocess.run(["dotnet", dll, "-c", "-o", out] + list(opts) + list(files), capture_output=True, text=True, env=ENV, timeout=300)
    return r.returncode, r.stdout + r.stderr
