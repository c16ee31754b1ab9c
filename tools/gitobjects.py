#!/usr/bin/env python3
"""Writes mc/git_objects.json: objects written by git itself in a scratch repository, with
git's own reading of them. Run by hand (needs git and ssh-keygen); no check runs it."""
import json, os, subprocess, tempfile, shutil, stat
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "mc", "git_objects.json")
d = tempfile.mkdtemp(prefix="gitobj.")
env = dict(PATH=os.environ["PATH"], HOME=d, GIT_CONFIG_NOSYSTEM="1", TZ="UTC", LC_ALL="C.UTF-8",
           GIT_AUTHOR_NAME="A U Thor", GIT_AUTHOR_EMAIL="author@example.com", GIT_AUTHOR_DATE="1112911993 -0700",
           GIT_COMMITTER_NAME="C O Mitter", GIT_COMMITTER_EMAIL="committer@example.com", GIT_COMMITTER_DATE="1112912053 +0200")
def git(*a, inp=None, raw=False, **e):
    b = inp if isinstance(inp, bytes) or inp is None else inp.encode()
    r = subprocess.run(["git", "-C", d + "/r", *a], input=b, env={**env, **e}, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    if r.returncode: raise SystemExit("git %s: %s" % (a, r.stderr.decode()))
    return r.stdout if raw else r.stdout.decode().strip()
def tool(name, text):
    p = d + "/" + name
    open(p, "w").write("#!/bin/bash\ncat > /dev/null\necho '[GNUPG:] SIG_CREATED D 1 8 00 1 X' >&2\ncat <<'EOF'\n" + text + "EOF\n")
    os.chmod(p, 0o755); return p
os.mkdir(d + "/r"); git("init", "-q", "-b", "main")
B, E = "-----BEGIN PGP SIGNATURE-----\n", "-----END PGP SIGNATURE-----\n"
plain = tool("plain", B + "\niQEz\n=abcd\n" + E)
version = tool("version", B + "Version: GnuPG v2\n\niQEz\n=abcd\n" + E)
comment = tool("comment", B + "Comment: made by hand\nVersion: x\n\niQEz\n" + E)
hashed = tool("hashed", B + "Hash: SHA512\n\niQEz\n" + E)
charset = tool("charset", B + "Charset: utf-8\nMessageID: x\n\niQEz\n\n" + E)
x509 = tool("x509", "-----BEGIN SIGNED MESSAGE-----\nMIIE\nAAAA==\n-----END SIGNED MESSAGE-----\n")
subprocess.run(["ssh-keygen", "-q", "-t", "ed25519", "-N", "", "-C", "k", "-f", d + "/key"], check=True, stdin=subprocess.DEVNULL)
ids = []
def add(i): ids.append(i); return i
blobs = [add(git("hash-object", "-w", "--stdin", inp=t)) for t in ["", "hello\n", "no newline", "\x00\x01", "line\r\nline\r\n", "x" * 5000]]
e = add(git("mktree", inp=""))
t1 = add(git("mktree", inp="100644 blob %s\thello\n" % blobs[1]))
t2 = add(git("mktree", "-z", inp="100644 blob %s\thello\0" % blobs[1] + "100755 blob %s\trun me\0" % blobs[2] + "120000 blob %s\tlink\0" % blobs[2] +
             "040000 tree %s\tdir\0" % t1 + "040000 tree %s\tdir.d\0" % e + "100644 blob %s\tdir.\0" % blobs[0] + "100644 blob %s\tne\nw\0" % blobs[0] + "100644 blob %s\tü€\0" % blobs[0]))
t3 = add(git("mktree", "--missing", inp="160000 commit %s\tsub\n" % ("12" * 20)))
add(git("mktree", inp="".join("100644 blob %s\tf%03d\n" % (blobs[i % 6], i) for i in range(300))))
def ct(tree, *ps, msg="message\n", opts=(), conf=(), **en):
    a = []
    for c in conf: a += ["-c", c]
    a += ["commit-tree", tree]
    for p in ps: a += ["-p", p]
    return add(git(*a, *opts, inp=msg, **en))
root = ct(t1)
c2 = ct(t2, root, msg="second\n\nwith a body\n")
ct(t2, c2, msg="no newline at the end")
ct(t2, c2, msg="")
ct(t2, c2, msg="\n\nleading blank lines\n\n\n")
ct(t2, c2, msg="tree 1\nparent 2\ngpgsig -----BEGIN PGP SIGNATURE-----\n\nmergetag object\n")
ct(t2, c2, msg="ü\n", GIT_AUTHOR_NAME="Ünï Cödé", GIT_AUTHOR_EMAIL="ü@é")
ct(t2, c2, msg=b"latin \xfc\n", conf=["i18n.commitEncoding=ISO-8859-1"], GIT_AUTHOR_NAME="Plain")
ct(t2, c2, msg=b"shift\n", conf=["i18n.commitEncoding=Shift_JIS"])
ct(e, GIT_AUTHOR_NAME="One", GIT_AUTHOR_EMAIL="", GIT_AUTHOR_DATE="@0 +0000")
ct(e, GIT_AUTHOR_NAME="A  B   C", GIT_AUTHOR_EMAIL="a b c", GIT_AUTHOR_DATE="@2000000000 +1400")
ct(e, GIT_AUTHOR_NAME='"Q" (x)', GIT_AUTHOR_EMAIL="x@y (z)", GIT_AUTHOR_DATE="1112911993 -0001", GIT_COMMITTER_DATE="1112911993 +1245")
many = [ct(e, root, msg="side %d\n" % i) for i in range(8)]
ct(t2, c2, many[0]); ct(t2, c2, many[0], many[1]); ct(t2, *many)
G = ["-c", "gpg.program="]
def sgn(prog, fmt=None):
    return ["gpg.program=" + prog] if not fmt else ["gpg.format=x509", "gpg.x509.program=" + prog]
ssh = ["gpg.format=ssh", "user.signingKey=" + d + "/key.pub"]
def csigned(conf, *ps, **k): return ct(t2, *ps, opts=["-Skey"] if conf is not ssh else ["-S" + d + "/key.pub"], conf=conf, **k)
signed = []
for conf in (sgn(plain), sgn(version), sgn(comment), sgn(hashed), sgn(charset), sgn(x509, 1), ssh):
    signed.append(csigned(conf, c2)); csigned(conf, c2, many[0], msg="merge\n")
csigned(sgn(plain) + ["i18n.commitEncoding=ISO-8859-1"], c2, msg=b"\xfc\n")
csigned(sgn(plain), c2, msg="")
# tags
def tag(name, target, *opts, conf=(), **k):
    a = []
    for c in conf: a += ["-c", c]
    git(*a, "tag", *opts, name, target, **k); return add(git("rev-parse", "refs/tags/" + name))
def mtag(name, target, msg, **k): return tag(name, target, "-a", "--cleanup=verbatim", "-F", "-", inp=msg, **k)
tg = [mtag("v1", c2, "tag message\n"), mtag("v2", c2, "no newline"), mtag("v3/sub", t2, "\nleading\n\n"), mtag("v4", blobs[1], "a blob\n"),
      mtag("of-tag", "v1", "nested\n"), mtag("ü", c2, "ü\n")]
for n, conf in (("s1", sgn(plain)), ("s2", sgn(version)), ("s3", sgn(hashed)), ("s4", sgn(x509, 1))):
    tag(n, many[1], "-s", "-u", "key", "--cleanup=verbatim", "-F", "-", conf=conf, inp="signed\n\nbody\n")
tag("s5", many[2], "-s", "-u", d + "/key.pub", "-F", "-", conf=ssh, inp="signed\n")
tag("s6", many[3], "-s", "-u", "key", "-F", "-", conf=sgn(plain), inp="six\n")
for bare in ("object %s\ntype commit\ntag old\n\nwithout tagger\n" % c2, "object %s\ntype commit\ntag old\n" % c2, "object %s\ntype tree\ntag old\ntagger X <x@y>\n\nno date\n" % t1):
    add(git("hash-object", "-t", "tag", "-w", "--literally", "--stdin", inp=bare))
for bare in ("tree %s\n\nno author\n" % t1, "tree %s\nauthor A <a@b> 1 +0000\n\nno committer\n" % t1, "tree %s\nauthor A <a@b>\ncommitter B <b@c> 5\n\n" % t1,
             "tree %s\nauthor A <a@b> 1 +0000\ncommitter A <a@b> 1 +0000\nchange-id kqrz\nmulti line\n more\n\nm\n" % t1):
    add(git("hash-object", "-t", "commit", "-w", "--literally", "--stdin", inp=bare))
# merges of tags keep them as mergetag headers
git("read-tree", root); git("update-ref", "HEAD", root); git("checkout", "-q", "-f", "HEAD")
def merge(*tags, conf=(), msg="merge\n", opts=()):
    a = []
    for c in conf: a += ["-c", c]
    git("reset", "-q", "--hard", root)
    git(*a, "merge", "-q", "--no-ff", "-s", "ours" if len(tags) == 1 else "octopus", *opts, "-m", msg, *tags); return add(git("rev-parse", "HEAD"))
side = [ct(t1, root, msg="s %d\n" % i) for i in range(5)]
for i, (n, conf, m) in enumerate((("m0", None, "plain tag\n"), ("m1", sgn(plain), "signed\n\nmore\n"), ("m2", sgn(version), "x\n"), ("m3", None, "no newline"), ("m4", sgn(plain), "l1\n\n\nl2\n"))):
    if conf: tag(n, side[i], "-s", "-u", "key", "--cleanup=verbatim", "-F", "-", conf=conf, inp=m)
    else: mtag(n, side[i], m)
for n in ("m0", "m1", "m2", "m3", "m4"): merge(n)
merge("m0", "m1"); merge("m0", "m1", "m2", "m4"); merge("m1", conf=sgn(plain), opts=["-Skey"]); merge("m1", "m2", conf=sgn(version), opts=["-Skey"])
merge("m1", conf=ssh, opts=["-S" + d + "/key.pub"])
merge("m1", conf=["i18n.commitEncoding=ISO-8859-1"])
# and amended, with their headers kept
for extra in ((), ("-Skey",)):
    git("reset", "-q", "--hard", merge("m1", "m2"))
    git("-c", "gpg.program=" + plain, "commit", "-q", "--amend", "--allow-empty", "-m", "amended\n", *extra); add(git("rev-parse", "HEAD"))
res = []
seen = set()
for i in ids:
    if i in seen: continue
    seen.add(i)
    typ = git("cat-file", "-t", i); body = git("cat-file", typ, i, raw=True)
    o = {"id": i, "type": typ, "body": body.hex()}
    if typ == "commit":
        en = "UTF-8"
        for l in body.split(b"\n\n")[0].split(b"\n"):
            if l.startswith(b"encoding "): en = l[9:].decode()
        v = git("-c", "i18n.logOutputEncoding=" + en, "show", "-s", "--no-notes", "--date=raw", "--format=%T%x00%P%x00%an%x00%ae%x00%ad%x00%cn%x00%ce%x00%cd%x00%e%x00%B%x00", i, raw=True)
        o["git"] = [x.hex() for x in v.split(b"\0")[:-1]]
    if typ == "tag":
        git("update-ref", "refs/probe/x", i)
        v = git("for-each-ref", "--format=%(object)%00%(type)%00%(tag)%00%(taggername)%00%(taggeremail)%00%(taggerdate:raw)%00%(contents)%00", "refs/probe/x", raw=True)
        o["git"] = [x.hex() for x in v.split(b"\0")[:-1]]
    if typ == "tree":
        v = git("ls-tree", "-z", i, raw=True)
        o["git"] = [x.hex() for x in v.split(b"\0")[:-1]]
    res.append(o)
json.dump(res, open(out, "w"), indent=0); open(out, "a").write("\n")
print(len(res), "objects")
shutil.rmtree(d)
