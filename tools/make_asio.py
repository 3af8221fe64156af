#!/usr/bin/env python3
"""Derive a standalone asio tree from the installed Boost.Asio headers.

Boost.Asio is generated from standalone asio by a mechanical rename (boostify); this undoes
the rename, so that the repository's `#include <asio/...>` sees the real asio implementation.
"""
import os, re, sys

SRC = "/usr/include/boost"
dst = sys.argv[1]


def conv(t):
    t = re.sub(r"#(\s*)include <boost/system/(error_code|system_error)\.hpp>", r"#\1include <system_error>", t)
    t = re.sub(r"#(\s*)include <boost/cerrno\.hpp>", r"#\1include <cerrno>", t)
    t = t.replace("boost::system::", "std::")
    t = t.replace("boost/asio", "asio").replace("boost::asio", "asio").replace("boost_asio", "asio")
    t = t.replace("BOOST_ASIO", "ASIO")
    # drop the enclosing "namespace boost { ... }" but keep forward declarations of real boost types
    out, depth_drop, in_boost = [], 0, []
    lines = t.split("\n")
    for i, ln in enumerate(lines):
        if re.match(r"namespace boost \{\s*$", ln):
            nxt = next((x for x in lines[i + 1:] if x.strip()), "")
            drop = bool(re.match(r"namespace (asio|system|detail_asio)", nxt))
            in_boost.append(drop)
            if drop:
                continue
        elif re.match(r"\}\s*// namespace boost\s*$", ln):
            if in_boost and in_boost.pop():
                continue
        out.append(ln)
    t = "\n".join(out)
    t = t.replace("namespace system {", "namespace std {")
    return t


n = 0
for root, dirs, files in os.walk(os.path.join(SRC, "asio")):
    for f in files:
        p = os.path.join(root, f)
        rel = os.path.relpath(p, SRC)
        with open(p, encoding="utf-8", errors="surrogateescape") as fh:
            t = conv(fh.read())
        q = os.path.join(dst, rel)
        os.makedirs(os.path.dirname(q), exist_ok=True)
        with open(q, "w", encoding="utf-8", errors="surrogateescape") as fh:
            fh.write(t)
        n += 1
with open(os.path.join(SRC, "asio.hpp")) as fh:
    t = conv(fh.read())
with open(os.path.join(dst, "asio.hpp"), "w") as fh:
    fh.write(t)
print("asio headers:", n + 1)
# boost-specific options that remain enabled in the boostified config
p = os.path.join(dst, "asio/detail/config.hpp")
with open(p) as fh:
    t = fh.read()
t = re.sub(r"^(\s*)#(\s*)define ASIO_HAS_BOOST_[A-Z_]+ 1", r"\1#\2define ASIO_UNUSED_OPTION 1", t, flags=re.M)
for m in ("SOURCE_LOCATION", "CONTEXT_FIBER", "COROUTINE"):
    t = "#define ASIO_DISABLE_BOOST_%s 1\n" % m + t
with open(p, "w") as fh:
    fh.write(t)

with open(os.path.join(dst, "asio/error.hpp"), "a") as fh:
    fh.write("\nnamespace asio {\nusing error_code = std::error_code;\nusing system_error = std::system_error;\n}\n")
