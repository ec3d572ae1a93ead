"""place.py WHERE COMMAND...: runs the command in some unusual place (used before a program by the C24 check)."""
import os
import shutil
import sys

HERE = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), ".build", "places")
CONTENTS = [b"", b"1\n", b"true\n", b"\xff\xfe\x00", b"[poker]\nseed = 1\n", b"{\"seed\": 1, \"debug\": true}\n"]


def fresh(name):
    d = os.path.join(os.fsencode(HERE), name)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d, exist_ok=True)
    return d


def main():
    where, cmd = sys.argv[1], sys.argv[2:]
    me = str(os.getpid()).encode()
    if where == "deleted":
        d = fresh(b"gone-" + me)
        os.chdir(d)
        os.rmdir(d)
    elif where == "bytes":
        os.chdir(fresh(b"a \xff\xfe\n folder"))
    elif where == "deep":
        d = fresh(b"deep")
        os.chdir(d)
        for _ in range(30):
            os.makedirs("x" * 200, exist_ok=True)
            os.chdir("x" * 200)
    elif where == "closed":
        os.close(0)
        os.close(2)
    elif where == "args":
        os.execv(cmd[0], ["/nowhere/other program"] + cmd[1:] + ["--debug", "-v", "--seed", "1", "--plain", "é"])
    elif where.startswith("files:"):
        # a folder in which the files that the program asks for exist
        _, k, names = where.split(":", 2)
        d = fresh(b"files-" + k.encode())
        os.chdir(d)
        for n in names.split(","):
            n = os.fsencode(bytes.fromhex(n))
            if b".." in n.split(b"/"):
                continue
            if os.path.dirname(n):
                os.makedirs(os.path.dirname(n), exist_ok=True)
            if int(k) < len(CONTENTS):
                if not os.path.isdir(n):
                    with open(n, "wb") as f:
                        f.write(CONTENTS[int(k)])
            else:
                os.makedirs(n, exist_ok=True)
    elif where == "terminal":
        import pty
        pid, fd = pty.fork()
        if pid:
            while True:
                try:
                    b = os.read(fd, 65536)
                except OSError:
                    break
                if not b:
                    break
                os.write(1, b.replace(b"\r\n", b"\n"))
            sys.exit(os.waitstatus_to_exitcode(os.waitpid(pid, 0)[1]) & 127)
    os.execv(cmd[0], cmd)


main()
