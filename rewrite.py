"""Where the tree under test uses atomics, cells or thread-locals of the standard library itself, the interleaving
explorer is built from a copy of its sources in which those names stand for the explorer's own.  Nothing else changes."""
import os, re

ATOMIC, CELL, LOCAL = "archery::verif_std::atomic", "archery::verif_std::Cell", "archery::verif_local!"
USE = re.compile(r"(?m)^([ \t]*(?:pub(?:\([^)]*\))?\s+)?)use\s+(?:::)?(std|core)::([^;]+);")


def flatten(tree):
    """use-tree -> [(path, alias)]"""
    tree = tree.strip()
    i = tree.find("{")
    if i < 0:
        m = re.match(r"(.*?)\s+as\s+(\w+)$", tree, re.S)
        return [(m.group(1).strip(), m.group(2)) if m else (tree, None)]
    head, body = tree[:i].strip().rstrip(":").strip(), tree[i + 1:tree.rindex("}")]
    parts, depth, cur = [], 0, ""
    for c in body:
        depth += (c == "{") - (c == "}")
        if c == "," and depth == 0:
            parts.append(cur)
            cur = ""
        else:
            cur += c
    parts.append(cur)
    out = []
    for p in parts:
        for path, alias in (flatten(p) if p.strip() else []):
            full = head + "::" + path if head else path
            if path == "self":
                full = head
            out.append((full, alias))
    return out


def renamed(path):
    p = re.sub(r"\s+", "", path)
    if re.match(r"sync::atomic(::|$)", p):
        return ATOMIC + p[len("sync::atomic"):]
    return {"cell::Cell": CELL, "cell::RefCell": "archery::verif_std::MarkedRefCell", "rc::Rc": "archery::verif_std::CountedRc",
            "sync::Mutex": "archery::loom::sync::Mutex", "sync::RwLock": "archery::loom::sync::RwLock"}.get(p)


def rewrite(text):
    def one(m):
        lead, root, tree = m.groups()
        names = flatten(re.sub(r"//[^\n]*|/\*.*?\*/", "", tree, flags=re.S))
        if not any(renamed(p) for p, _ in names):
            return m.group(0)
        out = []
        for p, alias in names:
            new, last = renamed(p), p.split("::")[-1].strip()
            if new and not alias and new.split("::")[-1] != last:
                alias = last
            out.append("%suse %s%s;" % (lead, new or root + "::" + p, " as " + alias if alias else ""))
        return " ".join(x.strip() if k else x for k, x in enumerate(out))
    text = USE.sub(one, text)
    text = re.sub(r"(?<![\w:])(?:::)?(?:std|core)::sync::atomic\b", ATOMIC, text)
    for p in ("cell::Cell", "cell::RefCell", "rc::Rc", "sync::Mutex", "sync::RwLock"):
        text = re.sub(r"(?<![\w:])(?:::)?(?:std|core)::%s\b" % p, renamed(p), text)
    return re.sub(r"(?<![\w:])(?:std::)?thread_local!", LOCAL, text)


def needed(repo):
    for d, _, fs in os.walk(os.path.join(repo, "src")):
        for f in fs:
            if f.endswith(".rs"):
                t = open(os.path.join(d, f), encoding="utf-8", errors="replace").read()
                if rewrite(t) != t:
                    return True
    return False


def put(path, text):
    try:
        if open(path, encoding="utf-8").read() == text:
            return
    except OSError:
        pass
    os.makedirs(os.path.dirname(path), exist_ok=True)
    open(path, "w", encoding="utf-8").write(text)


def copy(repo, crate, dest):
    """dest/repo: the rewritten sources; dest/conc: the explorer, depending on them"""
    keep = set()
    for d, _, fs in os.walk(os.path.join(repo, "src")):
        for f in fs:
            p = os.path.join(d, f)
            q = os.path.join(dest, "repo", os.path.relpath(p, repo))
            keep.add(q)
            t = open(p, encoding="utf-8", errors="replace").read()
            put(q, rewrite(t) if f.endswith(".rs") else t)
    for d, _, fs in os.walk(os.path.join(dest, "repo", "src")):
        for f in fs:
            if os.path.join(d, f) not in keep:
                os.unlink(os.path.join(d, f))
    put(os.path.join(dest, "repo", "Cargo.toml"), open(os.path.join(repo, "Cargo.toml")).read())
    t = open(os.path.join(crate, "Cargo.toml")).read()
    t = t.replace('path = "%s"' % repo, 'path = "../repo"').replace('path = "archery"', 'path = "%s/archery"' % crate)
    t = t.replace("[dependencies]", '[[bin]]\nname = "conc"\npath = "%s/src/main.rs"\n\n[dependencies]' % crate, 1)
    put(os.path.join(dest, "conc", "Cargo.toml"), t)
    put(os.path.join(dest, "conc", "Cargo.lock"), open(os.path.join(crate, "Cargo.lock")).read())
    return os.path.join(dest, "conc")
