namespace FsToolkit.ErrorHandling
// Stand-in for the parts of the NuGet package FsToolkit.ErrorHandling that FrontEndAst uses
// (the `result` computation expression and List.traverseResultM); the package cannot be fetched offline.

type ResultBuilder() =
    member _.Return(x) : Result<_, _> = Ok x
    member _.ReturnFrom(r: Result<_, _>) = r
    member _.Bind(r: Result<'a, 'e>, f: 'a -> Result<'b, 'e>) = Result.bind f r
    member _.Zero() : Result<unit, _> = Ok ()
    member _.Delay(f: unit -> Result<_, _>) = f
    member _.Run(f: unit -> Result<_, _>) = f ()
    member _.Combine(r: Result<unit, 'e>, f: unit -> Result<'b, 'e>) = Result.bind f r
    member _.TryWith(f: unit -> Result<_, _>, h) = try f () with e -> h e
    member _.TryFinally(f: unit -> Result<_, _>, c) = try f () finally c ()
    member _.Using(d: 'd when 'd :> System.IDisposable, f: 'd -> Result<_, _>) = using d f
    member this.While(g: unit -> bool, body: unit -> Result<unit, 'e>) : Result<unit, 'e> =
        let mutable r = Ok ()
        while (match r with Ok () -> g () | Error _ -> false) do
            r <- body ()
        r
    member this.For(s: seq<'a>, f: 'a -> Result<unit, 'e>) : Result<unit, 'e> =
        let mutable r = Ok ()
        use e = s.GetEnumerator()
        while (match r with Ok () -> e.MoveNext() | Error _ -> false) do
            r <- f e.Current
        r

[<AutoOpen>]
module ResultCE =
    let result = ResultBuilder()

module List =
    let traverseResultM (f: 'a -> Result<'b, 'e>) (xs: 'a list) : Result<'b list, 'e> =
        let rec go acc l =
            match l with
            | [] -> Ok (List.rev acc)
            | x :: t -> (match f x with Ok y -> go (y :: acc) t | Error e -> Error e)
        go [] xs
    let sequenceResultM xs = traverseResultM id xs
