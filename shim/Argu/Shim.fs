namespace Argu
// Stand-in for the parts of the NuGet package Argu that asn1scc/Program.fs uses.
open System
open FSharp.Reflection
open FSharp.Quotations

type IArgParserTemplate =
    abstract Usage : string

type ArguParseException(msg: string) =
    inherit Exception(msg)

[<AllowNullLiteral>]
type UniqueAttribute() = inherit Attribute()
type ExactlyOnceAttribute() = inherit Attribute()
type LastAttribute() = inherit Attribute()
type MainCommandAttribute() = inherit Attribute()
type AltCommandLineAttribute(n: string) =
    inherit Attribute()
    member _.Name = n

module private Impl =
    let rec caseName (e: Expr) : string =
        match e with
        | Patterns.NewUnionCase (uci, _) -> uci.Name
        | Patterns.Lambda (_, b) -> caseName b
        | Patterns.Let (_, _, b) -> caseName b
        | _ -> failwithf "unsupported quotation %A" e
    let parseValue (t: Type) (s: string) : obj =
        if t = typeof<string> then box s
        elif t = typeof<int> then box (Int32.Parse s)
        elif t = typeof<uint32> then box (UInt32.Parse s)
        elif FSharpType.IsUnion t then
            let c = FSharpType.GetUnionCases t |> Array.tryFind (fun c -> String.Equals(c.Name, s, StringComparison.OrdinalIgnoreCase))
            match c with
            | Some c -> FSharpValue.MakeUnion(c, [||])
            | None -> raise (ArguParseException (sprintf "bad value %s" s))
        else raise (ArguParseException (sprintf "unsupported parameter type %s" t.Name))

type ParseResults<'T>(items: 'T list) =
    let name (x: 'T) = (FSharpValue.GetUnionFields(box x, typeof<'T>) |> fst).Name
    let fields (x: 'T) = FSharpValue.GetUnionFields(box x, typeof<'T>) |> snd
    let find n = items |> List.tryFindBack (fun x -> name x = n)
    member _.GetAllResults() = items
    member _.Contains(e: Expr<'T>) = (find (Impl.caseName e)).IsSome
    member _.Contains(e: Expr<'a -> 'T>) = (find (Impl.caseName e)).IsSome
    member _.GetResult(e: Expr<'a -> 'T>, ?defaultValue: 'a) : 'a =
        match find (Impl.caseName e) with
        | Some x -> unbox<'a> ((fields x).[0])
        | None ->
            match defaultValue with
            | Some d -> d
            | None -> raise (ArguParseException (sprintf "missing argument %s" (Impl.caseName e)))
    member _.TryGetResult(e: Expr<'a -> 'T>) : 'a option =
        find (Impl.caseName e) |> Option.map (fun x -> unbox<'a> ((fields x).[0]))

type ArgumentParser<'T>() =
    let cases = FSharpType.GetUnionCases typeof<'T>
    let names (c: UnionCaseInfo) =
        let alts = c.GetCustomAttributes() |> Array.choose (fun a -> match a with :? AltCommandLineAttribute as x -> Some x.Name | _ -> None)
        let dflt = "--" + c.Name.ToLowerInvariant().Replace('_', '-')
        Array.append alts [| dflt |]
    let main = cases |> Array.find (fun c -> c.GetCustomAttributes() |> Array.exists (fun a -> a :? MainCommandAttribute))
    member _.Parse(argv: string array) : ParseResults<'T> =
        let res = ResizeArray<'T>()
        let files = ResizeArray<string>()
        let isName (s: string) = cases |> Array.exists (fun c -> names c |> Array.contains s)
        let mutable i = 0
        while i < argv.Length do
            let a = argv.[i]
            match cases |> Array.tryFind (fun c -> names c |> Array.contains a) with
            | Some c ->
                let fs = c.GetFields()
                if fs.Length = 0 then
                    res.Add(unbox<'T> (FSharpValue.MakeUnion(c, [||])))
                    i <- i + 1
                else
                    let t = fs.[0].PropertyType
                    if t.IsGenericType && t.GetGenericTypeDefinition() = typedefof<option<_>> then
                        let ucs = FSharpType.GetUnionCases t
                        let inner = t.GetGenericArguments().[0]
                        let tryParsed =
                            if i + 1 < argv.Length && not (isName argv.[i + 1]) then
                                try Some (Impl.parseValue inner argv.[i + 1]) with _ -> None
                            else None
                        match tryParsed with
                        | Some v ->
                            res.Add(unbox<'T> (FSharpValue.MakeUnion(c, [| FSharpValue.MakeUnion(ucs.[1], [| v |]) |])))
                            i <- i + 2
                        | None ->
                            res.Add(unbox<'T> (FSharpValue.MakeUnion(c, [| FSharpValue.MakeUnion(ucs.[0], [||]) |])))
                            i <- i + 1
                    else
                        if i + 1 >= argv.Length then raise (ArguParseException (sprintf "missing value for %s" a))
                        res.Add(unbox<'T> (FSharpValue.MakeUnion(c, [| Impl.parseValue t argv.[i + 1] |])))
                        i <- i + 2
            | None ->
                if a.StartsWith "-" && not (a.StartsWith "/") then raise (ArguParseException (sprintf "unrecognized argument: %s" a))
                files.Add a
                i <- i + 1
        if files.Count = 0 && not (argv |> Array.exists (fun a -> a = "-v")) then raise (ArguParseException "missing input files")
        if files.Count > 0 then res.Add(unbox<'T> (FSharpValue.MakeUnion(main, [| box (List.ofSeq files) |])))
        ParseResults<'T>(List.ofSeq res)

type ArgumentParser =
    static member Create<'T>(?programName: string) = ArgumentParser<'T>()
