#!/usr/bin/env python3
"""Builds the repository's OWN test suites (which its build cannot build here because submodules are absent) against the
stand-ins of /verif/shims, to validate those stand-ins.  Not part of any check.
usage: shim_validation.py VARIANT [suite...]   -> executables in $VERIF_BUILD/<variant>/bin/up_<suite>"""
import glob, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build as B
T = f"{B.REPO}/tests/helics"
variant = sys.argv[1]
D = lambda d: ["-DHELICS_BROKER_LOCATION=\"/nonexistent/\"", "-DHELICS_INSTALL_LOCATION=\"/nonexistent/\"", "-DHELICS_BUILD_LOC=\"/nonexistent/\"",
     "-DTEST_DIR=\"" + (f"{T}/apps/test_files/" if d == "apps" else f"{T}/test_files/") + "\"", f"-DGLOBAL_TEST_DIR=\"{T}/test_files/\"",
     f"-DAPP_TEST_DIR=\"{T}/apps/test_files/\"", "-DDISABLE_SYSTEM_CALL_TESTS=1", f"-DLONG_TEST_NAME=\"{T}/test_files/example_filters.toml\"", "-I", f"{T}/.."]
skip = {"MpiCore-tests.cpp", "zmqSSTests.cpp", "testFixtures_shared.cpp", "exeTestHelper.cpp", "MultiBrokerTests.cpp", "BrokerServerTests.cpp", "networkTests.cpp", "loggingTests.cpp", "InprocCore-Tests.cpp"}
fx = f"{T}/application_api/testFixtures.cpp"
L = ["-lgtest", "-lgmock", "-lgtest_main"]
progs = []
for d in ("common", "core", "network", "application_api", "system_tests", "apps"):
    srcs = [s for s in sorted(glob.glob(f"{T}/{d}/*.cpp")) if os.path.basename(s) not in skip]
    srcs = [s for s in srcs if "int main" not in open(s).read()]
    if d in ("system_tests", "core") and fx not in srcs:
        srcs.append(fx)
    progs.append((f"up_{d}", srcs, D(d), L))
sl = f"{T}/shared_library"
allsl = [s for s in sorted(glob.glob(f"{sl}/*.cpp")) if os.path.basename(s) not in ("loggingTests.cpp", "ValueConverterTests.cpp") and "int main" not in open(s).read() and os.path.basename(s) != "evilInputTests.cpp_"]
cpps = [s for s in allsl if s.endswith("_cpp.cpp") or "cpptestFix" in s]
progs.append(("up_capi", [s for s in allsl if s not in cpps or "cpptestFix" in s], D("shared_library"), L))
progs.append(("up_cpp98", cpps, D("shared_library"), L))
want = sys.argv[2:]
progs = [p for p in progs if not want or p[0][3:] in want]
try:
    B.build(variant, progs, B.ALL_GROUPS, print, keep_going=True)
except B.Fail as e:
    print(e); sys.exit(1)
