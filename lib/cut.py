"""Umbrella headers with only the parts a driver needs (a full build takes over a minute).

    python3 cut.py /repo/src OUT PROFILE

Copies the umbrella headers as they are now, without the #include lines a profile does not need;
every other header is used from /repo/src itself. When the result does not compile, the harness
builds with the complete headers instead."""
import os
import re
import sys

R = "resonanceReconstruction/"
OLD = [R + "breitWigner.hpp", R + "reichMoore.hpp"]
PROFILES = {
    "rm": OLD + [R + "rmatrix/legacy.hpp", R + "rmatrix/Reconstructor.hpp", R + "rmatrix/src/fromENDF.hpp"],
    "legacy": OLD + [R + "rmatrix/Reconstructor.hpp", R + "rmatrix/src/fromENDF.hpp"],
    "old": [R + "rmatrix.hpp"],
    "endf": OLD,
}


def cut(text, drop, make):
    text = re.sub(r'^[ \t]*#[ \t]*include[ \t]*"([^"]+)"',
                  lambda m: "" if m.group(1) in drop or (make and re.search(r"/src/make\w+\.hpp$", m.group(1)))
                  else m.group(0), text, flags=re.M)
    if make:
        text = re.sub(r"^[ \t]*using\s+CompoundSystemVariant\s*=[^;]*;", "", text, flags=re.M)
    return text


def main(src, dst, profile):
    drop = PROFILES[profile]
    for name in ("resonanceReconstruction.hpp", "resonanceReconstruction/rmatrix.hpp"):
        with open(os.path.join(src, name), encoding="utf-8", errors="surrogateescape") as f:
            new = cut(f.read(), drop, profile in ("rm", "legacy"))
        path = os.path.join(dst, name)
        os.makedirs(os.path.dirname(path), exist_ok=True)
        with open(path, "w", encoding="utf-8", errors="surrogateescape") as f:
            f.write(new)


main(*sys.argv[1:])
