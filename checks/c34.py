"""C34: code instantiation replaces exactly the declared placeholders"""
import ast
import os
import shutil
import tempfile
import typing as tp
from pathlib import Path

import numpy as np
from hypothesis import strategies as st
from pbt.core import Prop, Recorder, ensure, ensure_eq, expect_raises
from pbt import params as P

COMMENTS = {".c": "//", ".h": "//", ".cpp": "//", ".hpp": "//", ".py": "#", ".m": "%"}
CUSTOM = {".sh": "#", ".lisp": ";;", ".ml": "(*", ".star": "*", ".bat": "REM", ".sql": "--", ".dot": ".", ".plus": "+", ".q": "$^"}
CLIKE = (".c", ".h", ".cpp", ".hpp")
TOKEN = "@nevergrad" + "@"
ARG = "NG_" + "ARG"

plain = st.text("abcxyz0189 _-+=*/%#;:,.'\"\\(){}[]<>|&$!?^~`\té€", max_size=16)
# looks like a placeholder, but is not one
decoys = st.sampled_from([ARG, ARG + "{", ARG + "{}", ARG + "{a b}", ARG + "(a)", ARG + "[x]", "ng_arg{x}", ARG + " {x}", ARG + "{|c}", ARG + "{x|}", "NG_AR{x}", "@nevergrad", "\\g<0>", "\\1"])
comments = st.one_of(st.none(), st.none(), st.text("abc XYZ012|{,;()/#'\\é", min_size=1, max_size=8))
names = st.sampled_from(["a", "b", "step", "x1", "value_2", "_u", "A", "9", "é"])
scalars = st.one_of(st.integers(-10**20, 10**20), P.floats(-1e300, 1e300), st.booleans(), st.none(), st.text("ab'\"\\n{}%\n\t|" + "NGé", max_size=8),
                    st.sampled_from([ARG + "{a}", "\\1", "\\g<name>", "{}", "%s", "", TOKEN]))
arrays = st.one_of(
    st.lists(P.floats(-1e6, 1e6), min_size=1, max_size=4).map(lambda x: {"array": x}),
    st.lists(st.lists(st.integers(-9, 9), min_size=2, max_size=2), min_size=1, max_size=3).map(lambda x: {"array": x}),
    st.just({"array": []}),
)
values = st.one_of(scalars, scalars, arrays, st.lists(scalars, max_size=3), st.tuples(scalars, scalars).map(list))


def as_value(x: tp.Any) -> tp.Any:
    return np.array(x["array"]) if isinstance(x, dict) else x


def expected_string(x: tp.Any, ext: str) -> str:
    if not isinstance(x, dict):
        return repr(x)

    def convert(data: tp.Any) -> str:
        if isinstance(data, list):
            left, right = ("{", "}") if ext in CLIKE else ("[", "]")
            return left + ", ".join(convert(d) for d in data) + right
        return repr(data)

    return convert(x["array"])


@st.composite
def lines(draw: tp.Any, max_size: int = 7) -> tp.Any:
    """Lines are lists of segments: text, or placeholder. Commented lines are marked"""
    out = []
    for _ in range(draw(st.integers(1, max_size))):
        segments = []
        for _ in range(draw(st.integers(0, 3))):
            kind = draw(st.sampled_from(["text", "text", "decoy", "arg"]))
            if kind == "arg":
                segments.append({"arg": draw(names), "comment": draw(comments)})
            else:
                segments.append({"text": draw(plain if kind == "text" else decoys)})
        line: tp.Dict[str, tp.Any] = {"segments": segments}
        if draw(st.integers(0, 3)) == 0:
            line.update(indent=draw(st.integers(0, 5)), before=draw(st.integers(0, 2)), after=draw(st.integers(0, 2)))
        out.append(line)
    return out


def unique_args(content: tp.Any, seen: tp.Set[str]) -> None:
    """Drops the repeated placeholders"""
    for line in content:
        keep = []
        for seg in line["segments"]:
            if "arg" in seg:
                if seg["arg"] in seen:
                    continue
                seen.add(seg["arg"])
            keep.append(seg)
        line["segments"] = keep


def render(content: tp.Any, comment: str) -> tp.Tuple[str, tp.List[tp.Tuple[str, tp.Optional[str]]], tp.List[tp.List[tp.Any]]]:
    """Text of the file, declared placeholders, pieces of the expected text"""
    text, declared, pieces = [], [], []
    for line in content:
        raw, piece = "", []
        for seg in line["segments"]:
            if "arg" in seg:
                name, com = seg["arg"], seg["comment"]
                if com is not None:
                    com = com.replace("}", "")
                raw += ARG + "{" + name + ("" if com is None else f"|{com}") + "}"
                declared.append((name, com))
                piece.append({"arg": name})
            else:
                # the last text before a placeholder could be mixed up with it
                raw += seg["text"]
                piece.append(seg["text"])
        if "indent" in line:
            indent = " " * line["indent"]
            first = raw.lstrip(" ")
            if piece and isinstance(piece[0], str):
                # spaces after the token belong to the comment (all of the leading ones)
                merged: tp.List[tp.Any] = []
                strip = True
                for p in piece:
                    if strip and isinstance(p, str):
                        p = p.lstrip(" ")
                        strip = not p
                    else:
                        strip = False
                    merged.append(p)
                piece = merged
            text.append(indent + comment + " " * line["before"] + TOKEN + " " * line["after"] + first)
            piece = [indent] + piece
        else:
            text.append(raw)
        pieces.append(piece)
    return "\n".join(text), declared, pieces


def expected_text(pieces: tp.Any, strings: tp.Dict[str, str]) -> str:
    return "\n".join("".join(p if isinstance(p, str) else strings[p["arg"]] for p in piece) for piece in pieces)


def ambiguous(content: tp.Any) -> bool:
    """Segments which form a placeholder once put together (from decoys)"""
    import re

    simple = re.compile(ARG + r"\{\w+(\|.+?)?\}")
    for line in content:
        raw, spans = "", []
        for seg in line["segments"]:
            start = len(raw)
            if "arg" in seg:
                com = seg["comment"]
                raw += ARG + "{" + seg["arg"] + ("" if com is None else "|" + com.replace("}", "")) + "}"
                spans.append((start, len(raw)))
            else:
                raw += seg["text"]
        if [m.span() for m in simple.finditer(raw)] != spans:
            return True
        if TOKEN in raw or any(x in raw for x in ("NG_G{", "NG_OD{", "NG_SC{")):
            return True
        if any("arg" in seg and seg["comment"] is not None and not seg["comment"].replace("}", "") for seg in line["segments"]):
            return True
    return False


def with_custom(func: tp.Callable[..., None]) -> tp.Callable[..., None]:
    """Registers the custom file types, and restores"""
    from nevergrad.parametrization import FolderFunction, instantiate

    def inner(case: tp.Any, rec: Recorder) -> None:
        before = dict(instantiate.COMMENT_CHARS)
        try:
            for k, (ext, chars) in enumerate(CUSTOM.items()):
                FolderFunction.register_file_type(ext if k % 2 else ext[1:], chars)
            with tempfile.TemporaryDirectory(prefix="c34_") as tmp:
                func(case, rec, Path(tmp).resolve())
        finally:
            instantiate.COMMENT_CHARS.clear()
            instantiate.COMMENT_CHARS.update(before)

    inner.__name__ = func.__name__
    return inner


EXTS = list(COMMENTS) * 2 + [".CPP", ".H", ".Py"] + list(CUSTOM)


@st.composite
def files(draw: tp.Any) -> tp.Any:
    content = draw(lines())
    duplicates = draw(st.integers(0, 4)) == 0
    if not duplicates:
        unique_args(content, set())
    return {"ext": draw(st.sampled_from(EXTS)), "content": content, "values": draw(st.lists(values, min_size=9, max_size=9)), "end": draw(st.booleans()),
            "wrong": draw(st.sampled_from(["missing", "additional", "both"])), "again": draw(st.lists(values, min_size=9, max_size=9))}


def comment_of(ext: str) -> str:
    return {**COMMENTS, **CUSTOM}[ext.lower()]


def run_text(case: tp.Any, rec: Recorder, tmp: Path) -> None:
    from nevergrad.parametrization import instantiate

    if ambiguous(case["content"]):
        rec.event("ambiguous")
        return
    ext = case["ext"]
    text, declared, pieces = render(case["content"], comment_of(ext))
    filepath = tmp / f"code{ext}"
    filepath.write_text(text + "\n" * case["end"], encoding="utf8")
    before = filepath.read_bytes()
    args = [d[0] for d in declared]
    if len(set(args)) < len(args):
        with expect_raises(RuntimeError, msg="the names of the placeholders are unique"):
            instantiate.FileTextFunction(filepath)
        rec.event("duplicate")
        rec.nontrivial(True)
        return
    func = instantiate.FileTextFunction(filepath)
    ensure_eq([(p.name, p.comment) for p in func.placeholders], declared, "placeholders of the file")
    ensure(all(p == instantiate.Placeholder(*d) for p, d in zip(func.placeholders, declared)), "equality of placeholders")
    ensure_eq(set(func.parameters), set(args), "parameters of the file function")
    for vals in (case["values"], case["again"], case["values"]):
        kwargs = dict(zip(args, vals))
        strings = {name: expected_string(v, ext.lower()) for name, v in kwargs.items()}
        output = func(**{name: as_value(v) for name, v in kwargs.items()})
        # (the end of line at the end of the file is not specified)
        want = expected_text(pieces, strings) + "\n" * case["end"]
        ensure(want in (output, output + "\n"), "instantiated text", output, want)
    wrong = {name: as_value(v) for name, v in zip(args, case["values"])}
    changed = False
    if case["wrong"] != "additional" and args:
        wrong.pop(args[len(args) // 2])
        changed = True
    if case["wrong"] != "missing":
        wrong["other"] = 12
        changed = True
    if changed:
        with expect_raises(AssertionError, msg="wrong parameters"):
            func(**wrong)
    ensure_eq(filepath.read_bytes(), before, "the source is not changed")
    rec.nontrivial(bool(args))
    rec.event("commented", any("indent" in x for x in case["content"]))
    rec.event("array", any(isinstance(v, dict) for v in case["values"][: len(args)]))
    rec.event("custom", ext in CUSTOM)


# --------------------------------------------------------------------------------------------------------------------------------------
@st.composite
def bad_lines(draw: tp.Any) -> tp.Any:
    return {"ext": draw(st.sampled_from(EXTS + [".unknown"])), "kind": draw(st.sampled_from(["before", "nocomment", "othercomment", "twice", "deprecated", "good"])),
            "content": draw(lines(3)), "indent": draw(st.integers(0, 4)), "position": draw(st.integers(0, 3)), "old": draw(st.sampled_from(["NG_G{", "NG_OD{", "NG_SC{"]))}


def run_bad(case: tp.Any, rec: Recorder, tmp: Path) -> None:
    """Tokens which do not follow the pattern are errors, not silently ignored"""
    from nevergrad.parametrization import instantiate

    unique_args(case["content"], set())
    if ambiguous(case["content"]):
        return
    ext, kind = case["ext"], case["kind"]
    comment = comment_of(ext) if ext != ".unknown" else "//"
    text, declared, _ = render([x for x in case["content"] if "indent" not in x], comment)
    other = next(c for c in ("//", "#", "%") if c != comment)
    indent = " " * case["indent"]
    line = {
        "before": f"{indent}x {comment} {TOKEN} y", "nocomment": f"{indent}{TOKEN} y", "othercomment": f"{indent}{other} {TOKEN} y",
        "twice": f"{indent}{comment} {TOKEN} y {TOKEN} z", "deprecated": case["old"] + "1}", "good": f"{indent}{comment}{TOKEN} y",
    }[kind]
    rows = text.split("\n")
    rows.insert(case["position"] % (len(rows) + 1), line)
    filepath = tmp / f"bad{ext}"
    filepath.write_text("\n".join(rows), encoding="utf8")
    if kind == "good" and ext != ".unknown":
        func = instantiate.FileTextFunction(filepath)
        ensure_eq([(p.name, p.comment) for p in func.placeholders], declared, "placeholders")
        ensure(indent + "y" in func._text.split("\n"), "uncommented line", func._text)
    else:
        with expect_raises(RuntimeError, msg=f"{kind} {line}"):
            instantiate.FileTextFunction(filepath)
    rec.event(kind)
    rec.nontrivial(True)


# --------------------------------------------------------------------------------------------------------------------------------------
@st.composite
def folders(draw: tp.Any) -> tp.Any:
    n = draw(st.integers(1, 5))
    seen: tp.Set[str] = set()
    out = []
    for k in range(n):
        ext = draw(st.sampled_from(EXTS + [".txt", ".bin", "", ".pyc"]))
        content = draw(lines(4))
        unique_args(content, seen if ext not in (".txt", ".bin", "", ".pyc") else set())
        out.append({"path": draw(st.sampled_from(["", "", "sub", "sub/deep", "other dir", ".hidden"])), "name": f"f{k}{ext}", "content": content})
    return {"files": out, "values": draw(st.lists(values, min_size=9, max_size=9)), "again": draw(st.lists(values, min_size=9, max_size=9)), "clean": draw(st.booleans()),
            "empty": draw(st.booleans()), "dup": draw(st.integers(0, 5)), "same": draw(st.sampled_from(["plain", "dots", "link", "trailing", "relative"])),
            "wrong": draw(st.booleans()), "error": draw(st.booleans())}


def snapshot(folder: Path) -> tp.Dict[str, tp.Any]:
    """Content of all files (links to files are files)"""
    out: tp.Dict[str, tp.Any] = {}
    for root, dirs, filenames in os.walk(folder):
        rel = os.path.relpath(root, folder)
        out[rel] = None
        for name in filenames:
            out[os.path.join(rel, name)] = (Path(root) / name).read_bytes()
        for name in dirs:
            ensure(not (Path(root) / name).is_symlink(), "directories are not links", name)
    return out


class Stop(Exception):
    pass


def run_folder(case: tp.Any, rec: Recorder, tmp: Path) -> None:
    from nevergrad.parametrization import instantiate

    src = tmp / "project"
    src.mkdir()
    if case["empty"]:
        (src / "empty").mkdir()
    declared: tp.Dict[str, tp.Any] = {}
    expected: tp.Dict[str, tp.Any] = {}
    known = {**COMMENTS, **CUSTOM}
    order: tp.List[tp.Tuple[Path, tp.Any]] = []
    for f in case["files"]:
        ext = Path(f["name"]).suffix
        if ambiguous(f["content"]):
            return
        text, decl, pieces = render(f["content"], known.get(ext.lower(), "#"))
        path = src / f["path"] / f["name"]
        path.parent.mkdir(parents=True, exist_ok=True)
        path.write_text(text, encoding="utf8")
        rel = os.path.join(os.path.normpath(f["path"]) if f["path"] else ".", f["name"])
        if ext.lower() in known and decl:
            expected[rel] = (pieces, ext)
            order.append((path, decl))
    names_ = [d[0] for _, decl in order for d in decl]
    if not names_:
        with expect_raises(AssertionError, msg="no placeholder at all"):
            instantiate.FolderInstantiator(src)
        return
    source = snapshot(src)
    if case["dup"] == 0:  # one more file, with a name which exists
        (src / "zzz.py").write_text(f"x = {ARG}" + "{" + names_[0] + "}")
        with expect_raises(RuntimeError, msg="the names are unique over all files"):
            instantiate.FolderInstantiator(src)
        (src / "zzz.py").unlink()
        rec.event("duplicate over files")
    os.environ.pop("CLEAN_COPY_DIRECTORY", None)
    inst = instantiate.FolderInstantiator(src if case["error"] else str(src), clean_copy=case["clean"])
    ensure_eq([(p.name, p.comment) for p in inst.placeholders], [d for _, decl in sorted(order, key=lambda o: o[0]) for d in decl], "placeholders, in the order of the files")
    for vals in (case["values"], case["again"]):
        kwargs = dict(zip(names_, vals))
        where = None
        try:
            with inst.instantiate(**{n: as_value(v) for n, v in kwargs.items()}) as folder:
                where = folder
                ensure_eq(folder.name, "project", "name of the instantiated folder")
                ensure(folder.resolve() != src, "another folder")
                check(snapshot(folder), source, expected, kwargs)
                # the code may write new files
                (folder / "output.log").write_text("blublu")
                if case["error"]:
                    raise Stop
        except Stop:
            pass
        ensure(where is not None and not where.parent.exists(), "the instance is temporary")
        ensure_eq(snapshot(src), source, "the source is left untouched")
    # explicit folder, instantiated twice
    out = tmp / "out" / "there"
    for vals in (case["again"], case["values"]):
        kwargs = dict(zip(names_, vals))
        inst.instantiate_to_folder(out, {n: as_value(v) for n, v in kwargs.items()})
        check(snapshot(out), source, expected, kwargs)
        ensure_eq(snapshot(src), source, "the source is left untouched")
    # wrong parameters
    kwargs = {n: 1 for n in names_}
    if case["wrong"]:
        kwargs["other"] = 1
    else:
        kwargs.pop(names_[0])
    with expect_raises(AssertionError, msg="wrong parameters"):
        inst.instantiate_to_folder(tmp / "never", kwargs)
    # instantiating over the source is refused, whatever the way to provide it
    folder = inst.folder
    kwargs = {n: 1 for n in names_}
    (tmp / "link").symlink_to(folder)
    same = {"plain": folder, "dots": folder.parent / "x" / ".." / folder.name, "link": tmp / "link", "trailing": str(folder) + "/", "relative": os.path.relpath(folder)}[case["same"]]
    if case["same"] == "dots":
        (folder.parent / "x").mkdir()
    with expect_raises(AssertionError, msg="instantiation over the source"):
        inst.instantiate_to_folder(same, kwargs)
    ensure_eq(snapshot(src), source, "the source is left untouched")
    if case["clean"]:
        # later changes of the source are ignored
        ensure(folder.resolve() != src, "clean copy")
        for path, _ in order:
            path.write_text("changed")
        kwargs = dict(zip(names_, case["values"]))
        with inst.instantiate(**{n: as_value(v) for n, v in kwargs.items()}) as folder:
            check(snapshot(folder), source, expected, kwargs)
    rec.nontrivial(len(expected) > 0)
    rec.event("several files", len(expected) > 1)
    rec.event("other files", len(source) > len(expected) + 1)
    rec.event("clean", case["clean"])


def check(content: tp.Dict[str, tp.Any], source: tp.Dict[str, tp.Any], expected: tp.Dict[str, tp.Any], kwargs: tp.Any) -> None:
    ensure_eq(set(content), set(source), "tree of the instance")
    for rel, data in content.items():
        if rel in expected:
            pieces, ext = expected[rel]
            want = expected_text(pieces, {n: expected_string(v, ext.lower()) for n, v in kwargs.items()})
            got = data.decode("utf8")
            ensure(want in (got, got + "\n"), f"instantiated {rel}", got, want)
        else:
            ensure_eq(data, source[rel], f"file without placeholder {rel}")


# --------------------------------------------------------------------------------------------------------------------------------------
@st.composite
def programs(draw: tp.Any) -> tp.Any:
    finite = st.one_of(st.integers(-10**12, 10**12), P.floats(-1e300, 1e300), st.text("ab'\"\\{}%\n\té$", max_size=8), st.booleans(), st.none(),
                       st.lists(st.integers(-5, 5), max_size=3), st.lists(P.floats(-1e3, 1e3), min_size=1, max_size=3).map(lambda x: {"array": x}))
    return {"values": draw(st.lists(finite, min_size=1, max_size=6)), "commented": draw(st.lists(st.booleans(), min_size=6, max_size=6))}


def run_python(case: tp.Any, rec: Recorder, tmp: Path) -> None:
    """Values injected in Python code are the provided values"""
    from nevergrad.parametrization import instantiate

    rows = []
    for k in range(len(case["values"])):
        if case["commented"][k]:
            rows += [f"v{k} = None", f"#  {TOKEN}v{k} = {ARG}" + "{" + f"n{k}|comment {k}" + "}"]
        else:
            rows += [f"v{k} = {ARG}" + "{" + f"n{k}" + "}"]
    path = tmp / "code.py"
    path.write_text("\n".join(rows))
    output = instantiate.FileTextFunction(path)(**{f"n{k}": as_value(v) for k, v in enumerate(case["values"])})
    got: tp.Dict[str, tp.Any] = {}
    for node in ast.parse(output).body:
        assert isinstance(node, ast.Assign)
        got[node.targets[0].id] = ast.literal_eval(node.value)  # type: ignore
    for k, v in enumerate(case["values"]):
        want = v["array"] if isinstance(v, dict) else v
        ensure_eq(got[f"v{k}"], want, f"value {k}")
        ensure_eq(type(got[f"v{k}"]), type(want), f"type {k}")
    rec.nontrivial(len(case["values"]) > 1)


# --------------------------------------------------------------------------------------------------------------------------------------
words = st.text("abz019 '\"\\$*?;&|<>(){}[]#~=-é\t", max_size=8)


@st.composite
def commands(draw: tp.Any) -> tp.Any:
    return {
        "out": draw(st.lists(st.text("abz019 '\"\\$*%?;&|é\t", max_size=10), max_size=5)), "end": draw(st.booleans()),
        "size": draw(st.sampled_from([0, 0, 1, 10, 1000])), "errsize": draw(st.sampled_from([0, 0, 1, 1000, 1000, 20000])), "first": draw(st.sampled_from(["out", "err"])),
        "code": draw(st.sampled_from([0, 0, 0, 0, 1, 2, 77, 255])), "args": draw(st.lists(st.one_of(words, st.integers(-9, 9), P.floats(-9, 9)), max_size=3)),
        "kwargs": draw(st.dictionaries(st.sampled_from(["a", "b_c", "x1"]), st.one_of(words, st.integers(-9, 9), P.floats(-9, 9), st.booleans()), max_size=3)),
        "cwd": draw(st.sampled_from([None, "plain", "path"])), "env": draw(st.booleans()), "base": draw(st.lists(words, max_size=2)), "signal": draw(st.booleans()),
    }


SCRIPT = r'''
printf '%s\n' "$PWD" > "$SPY/cwd"
: > "$SPY/args"
for a in "$@"; do printf '%s\0' "$a" >> "$SPY/args"; done
printf '%s' "${EXTRA-none}" > "$SPY/extra"
big() { i=0; while [ $i -lt $1 ]; do echo "line $i ........................................"; i=$((i+1)); done; }
[ FIRST = err ] && big ERRSIZE >&2
cat "$SPY/out"
big OUTSIZE
[ FIRST = out ] && big ERRSIZE >&2
exit CODE
'''


def run_command(case: tp.Any, rec: Recorder) -> None:
    from nevergrad.parametrization import utils

    with tempfile.TemporaryDirectory(prefix="c34_") as name:
        tmp = Path(name).resolve()
        spy = tmp / "spy"
        spy.mkdir()
        (tmp / "work").mkdir()
        first = "\n".join(case["out"]) + ("\n" if case["out"] and (case["end"] or case["size"]) else "")
        (spy / "out").write_text(first, encoding="utf8")
        script = SCRIPT.replace("FIRST", case["first"]).replace("ERRSIZE", str(case["errsize"])).replace("OUTSIZE", str(case["size"])).replace("exit CODE", f"exit {case['code']}")
        script = script.replace("$SPY", str(spy))
        (tmp / "script.sh").write_text(script)
        # a full pipe must not block the process for ever: the command ends by itself after some time
        command = ["timeout", "-s", "KILL", "20", "/bin/sh", str(tmp / "script.sh")] + case["base"]
        copied = list(command)
        cwd = None if case["cwd"] is None else (tmp / "work" if case["cwd"] == "path" else str(tmp / "work"))
        env = {"EXTRA": "given", "PATH": os.environ["PATH"]} if case["env"] else None
        func = utils.CommandFunction(command, cwd=cwd, env=env)
        want = case["out"] + [f"line {i} ........................................" for i in range(case["size"])]
        if case["code"]:
            try:
                func(*case["args"], **case["kwargs"])
            except utils.FailedJobError as e:
                # the errors of the process are provided
                err = "".join(f"line {i} ........................................\n" for i in range(case["errsize"]))
                ensure_eq(str(e), err, "errors of the failed process")
                ensure_eq(getattr(e.__cause__, "returncode", None), case["code"], "return code")
            else:
                ensure(False, "a failing command is a failed job")
        else:
            output = func(*case["args"], **case["kwargs"])
            got = output.split("\n")
            while got and not got[-1]:  # the last end of line is not specified
                got.pop()
            while want and not want[-1]:
                want.pop()
            ensure_eq(got, want, "everything that was sent to stdout")
        received = (spy / "args").read_bytes().decode("utf8").split("\0")[:-1]
        ensure_eq(received, case["base"] + [str(x) for x in case["args"]] + [f"--{k}={v}" for k, v in case["kwargs"].items()], "arguments of the command")
        ensure_eq((spy / "cwd").read_text().strip(), str(tmp / "work") if cwd is not None else os.getcwd(), "directory of the command")
        ensure_eq((spy / "extra").read_text(), "given" if case["env"] else os.environ.get("EXTRA", "none"), "environment of the command")
        ensure_eq(command, copied, "the command is not modified")
    rec.nontrivial(bool(case["args"] or case["kwargs"] or case["out"]))
    rec.event("failure", case["code"] != 0)
    rec.event("large stderr", case["errsize"] > 2000)


# --------------------------------------------------------------------------------------------------------------------------------------
@st.composite
def functions(draw: tp.Any) -> tp.Any:
    return {
        "values": draw(st.lists(st.lists(st.one_of(st.integers(-10**6, 10**6), P.floats(-1e6, 1e6)), min_size=2, max_size=2), min_size=1, max_size=3)),
        "clean": draw(st.booleans()), "before": draw(st.lists(st.sampled_from(["", "blublu", "12", "  x"]), max_size=3)), "after": draw(st.integers(0, 1)),
        "verbose": draw(st.booleans()), "post": draw(st.booleans()), "output": draw(st.sampled_from(["a", "b", "text", "nothing", "fail"])), "name": draw(st.sampled_from(["folder", "my folder", "a.b"])),
    }


def run_function(case: tp.Any, rec: Recorder, tmp: Path) -> None:
    import contextlib
    import io
    from nevergrad.parametrization import FolderFunction, utils

    src = tmp / case["name"]
    (src / "data").mkdir(parents=True)
    rows = [f"# {TOKEN} a={ARG}" + "{a|first value}", "b=" + ARG + "{b}"] + [f"echo '{x}'" for x in case["before"]]
    # files of the folder and new files are available
    rows += [f"cat '{case['name']}/data/value.txt' > '{case['name']}/new.txt'", "pwd >> \"" + str(tmp / "log") + '"']
    rows += {"a": ["echo $a"], "b": ["echo $b"], "text": ["echo text"], "nothing": [], "fail": ["exit 3"]}[case["output"]]
    rows += ["echo"] * (case["after"] and case["output"] in "ab")
    (src / "run.sh").write_text("\n".join(rows))
    (src / "data" / "value.txt").write_text("7")
    source = snapshot(src)
    os.environ.pop("CLEAN_COPY_DIRECTORY", None)
    func = FolderFunction(src, ["/bin/sh", case["name"] + "/run.sh"], clean_copy=case["clean"], verbose=case["verbose"])
    ensure_eq({p.name: p.comment for p in func.placeholders}, {"a": "first value", "b": None}, "placeholders")
    if case["post"]:
        func.postprocessings.append(lambda x: 2 * x)
    for a, b in case["values"]:
        with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
            if case["output"] == "fail":
                with expect_raises(utils.FailedJobError, msg="failed job"):
                    func(a=a, b=b)
            elif case["output"] == "text" or (case["output"] == "nothing" and (not case["before"] or case["before"][-1] != "12")):
                with expect_raises(ValueError, IndexError, msg="no value"):
                    func(a=a, b=b)
            else:
                want = {"a": a, "b": b, "nothing": 12}[case["output"]]
                value = func(b=b, a=a)
                ensure_eq(value, float(want) * (2 if case["post"] else 1), "last line of the output")
                lines_ = case["before"] + ([str(want)] if case["output"] != "nothing" else [])
                ensure_eq(func.last_full_output, "\n".join(lines_).strip(), "full output")
        ensure_eq(snapshot(src), source, "the source is left untouched")
    where = (tmp / "log").read_text().splitlines()
    ensure_eq(len(where), len(case["values"]), "one run of the command for each call")
    ensure(not any(Path(w).exists() for w in where), "the instances are removed", where)
    rec.nontrivial(case["output"] in "ab")
    rec.event(case["output"])


# --------------------------------------------------------------------------------------------------------------------------------------
@st.composite
def copies(draw: tp.Any) -> tp.Any:
    return {"tree": draw(st.dictionaries(st.sampled_from(["a", "b.txt", "sub/c", "sub/deep/d", ".e", "sub 2/f"]), st.text("ab\n\r\x00\xff", max_size=6), max_size=5)), "env": draw(st.sampled_from(["no", "env", "dir"])),
            "error": draw(st.booleans()), "change": draw(st.booleans())}


def run_copy(case: tp.Any, rec: Recorder, tmp: Path) -> None:
    from nevergrad.parametrization import utils

    src = tmp / "source"
    src.mkdir()
    (tmp / "base").mkdir()
    for name, data in case["tree"].items():
        (src / name).parent.mkdir(parents=True, exist_ok=True)
        (src / name).write_bytes(data.encode("latin1"))
    source = snapshot(src)
    old = os.environ.pop("CLEAN_COPY_DIRECTORY", None)
    try:
        kwargs: tp.Any = {}
        if case["env"] == "env":
            utils.TemporaryDirectoryCopy.set_clean_copy_environment_variable(tmp / "base")
            with expect_raises(AssertionError, msg="missing directory"):
                utils.TemporaryDirectoryCopy.set_clean_copy_environment_variable(tmp / "missing")
        if case["env"] == "dir":
            kwargs["dir"] = tmp / "base"
        path = None
        try:
            with utils.TemporaryDirectoryCopy(src, **kwargs) as path:
                ensure_eq(snapshot(path), source, "copy")
                ensure_eq(path.name, "source", "name of the copy")
                ensure_eq(path.parent.parent == tmp / "base", case["env"] != "no", "location of the copy")
                if case["change"]:
                    for name in case["tree"]:
                        (path / name).write_bytes(b"changed")
                    ensure_eq(snapshot(src), source, "the copy is independent")
                if case["error"]:
                    raise Stop
        except Stop:
            pass
        ensure(path is not None and not path.exists() and not path.parent.exists(), "the copy is temporary")
        ensure_eq(snapshot(src), source, "the source is left untouched")
    finally:
        os.environ.pop("CLEAN_COPY_DIRECTORY", None)
        if old is not None:
            os.environ["CLEAN_COPY_DIRECTORY"] = old
    rec.nontrivial(len(case["tree"]) > 1)


PROPS = [
    Prop("text", files(), with_custom(run_text), 900, rule="the file has placeholders", shards=2),
    Prop("bad", bad_lines(), with_custom(run_bad), 300, rule="a line does not follow the pattern"),
    Prop("folder", folders(), with_custom(run_folder), 350, rule="files with placeholders in the folder", shards=2),
    Prop("python", programs(), with_custom(run_python), 250, rule="at least two values"),
    Prop("command", commands(), run_command, 250, rule="arguments or output", shards=2),
    Prop("function", functions(), with_custom(run_function), 120, rule="the value of one of the parameters is printed"),
    Prop("copy", copies(), with_custom(run_copy), 120, rule="at least two files"),
]
