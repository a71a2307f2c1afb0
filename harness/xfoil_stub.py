"""Stand-in for the external panel code: reads its commands from stdin, reports what it was asked for and can be stopped at
three points by the harness. Nothing outside the working directory is written."""
import os
import random
import socket
import struct
import sys

SOCK, P, KIND, TOKEN = (os.environ[k] for k in ("STUB_SOCK", "STUB_P", "STUB_KIND", "STUB_TOKEN"))


def tell(what, **data):
    import json
    s = socket.socket(socket.AF_UNIX, socket.SOCK_STREAM)
    s.settimeout(60)
    s.connect(SOCK)
    b = json.dumps(dict(p=int(P), w=what, **data)).encode()
    s.sendall(struct.pack(">I", len(b)) + b)
    s.recv(1)
    s.close()


def main():
    tell("started")
    lines = sys.stdin.read().split("\n")
    pos, rest = [0], []
    g = dict(flap=None, n=None, t=None)

    def line():
        if pos[0] >= len(lines):
            raise EOFError
        pos[0] += 1
        return lines[pos[0] - 1].strip()

    def ask():
        return rest.pop(0) if rest else line()

    def command():
        x = line().split()
        rest[:] = x[1:]
        return x[0].upper() if x else ""

    menu = ""
    loaded = False
    try:
        while True:
            c = command()
            if menu == "PLOP" and c:
                continue
            if c == "":
                menu = ""
            elif menu == "GDES":
                if c == "FLAP":
                    x = float(ask())
                    y, mode = float(ask()), "y"
                    if y == 999:
                        y, mode = float(ask()), "yt"
                    g["flap"] = [x, y, mode, float(ask())]
                elif c == "NAME":
                    ask()
            elif menu == "PPAR":
                if c == "N":
                    g["n"] = int(float(ask()))
                elif c in ("T", "P", "R"):
                    v = float(ask())
                    if c == "T":
                        g["t"] = v
            elif c in ("PLOP", "GDES", "PPAR"):
                menu = c
            elif c == "LOAD":
                name = ask()
                xy = [[float(v) for v in r.split()] for r in open(name).read().split("\n") if r.strip()]
                ask()
                tell("loaded", coords=xy)
                loaded = True
            elif c == "PSAV":
                name = ask()
                rng = random.Random(TOKEN)
                res = [[round(rng.uniform(-1, 1), 6), round(rng.uniform(-1, 1), 6)] for _ in range(rng.randint(5, 15))]
                write = KIND != "silent"
                if os.path.exists(name):  # asks whether to overwrite
                    write = write and ask().upper().startswith("Y")
                if write:
                    with open(name, "w") as f:
                        f.write("".join("  %9.6f %9.6f\n" % (x, y) for x, y in res))
                tell("saved", out=res, wrote=write, **g)
            elif c == "QUIT":
                break
    except EOFError:
        pass
    if not loaded:
        tell("nothing")
    print("done")


main()
