"""What each check is built from. `repo` are globs under /repo (so that added files are found)."""
HPACK = ["lib/hpack/*.cpp"]
FRAMES = ["lib/hpack/*.cpp", "lib/http2_frame_reader.cpp"]
ALL_LIB = ["lib/**/*.cpp"]
NG = ["/usr/lib/x86_64-linux-gnu/libnghttp2.so.14"]
REF = ["pbt.cpp", "hpack_ref.cpp"]

CHECKS = {}
for _i in (1, 2, 3, 4, 5, 6):
    CHECKS[f"C{_i:02d}"] = dict(repo=HPACK, harness=[f"p_C{_i:02d}.cpp", *REF], libs=NG,
                                fallback_repo=ALL_LIB)
for _i in (7, 8):
    CHECKS[f"C{_i:02d}"] = dict(repo=FRAMES, harness=[f"p_C{_i:02d}.cpp", *REF], libs=NG,
                                fallback_repo=ALL_LIB)
for _i in (9, 10, 11, 12, 13, 14, 15, 24, 26, 32):
    CHECKS[f"C{_i:02d}"] = dict(repo=ALL_LIB, harness=[f"p_C{_i:02d}.cpp", *REF], libs=NG)
CHECKS["C24"]["wrap"] = ["_ZNSt6chrono3_V212system_clock3nowEv", "time", "gettimeofday", "clock_gettime", "timespec_get"]
ROUTING = ["lib/router.cpp", "lib/static_file_handler.cpp", "lib/file_reader.cpp"]
for _i in (20, 21, 22, 23):
    CHECKS[f"C{_i:02d}"] = dict(repo=ROUTING, harness=[f"p_C{_i:02d}.cpp", *REF], libs=NG,
                                fallback_repo=ALL_LIB)
CLOCK = ["_ZNSt6chrono3_V212steady_clock3nowEv"]
CHECKS["C25"] = dict(repo=ROUTING + ["app/status_page.cpp", "app/server_stats.cpp"],
                     harness=["p_C25.cpp", *REF], libs=NG, wrap=CLOCK,
                     fallback_repo=ALL_LIB + ["app/s[et]*.cpp"])
CHECKS["C27"] = dict(repo=["lib/pollers/*.cpp"], harness=["p_C27.cpp", *REF], libs=NG,
                     fallback_repo=ALL_LIB)
TRANSPORTS = ["lib/socket_fd.cpp", "lib/transports/*.cpp"]
CHECKS["C28"] = dict(repo=TRANSPORTS, harness=["p_C28.cpp", *REF], libs=NG, wrap=["close", "getpeername"],
                     fallback_repo=ALL_LIB)
CHECKS["C29"] = dict(repo=TRANSPORTS, harness=["p_C29.cpp", *REF], libs=NG, wrap=["read", "write", "recv", "send"],
                     fallback_repo=ALL_LIB)
NET = ["close", "socket", "bind", "listen", "accept", "accept4", "getpeername", "setsockopt", "epoll_create1", "epoll_ctl",
       "epoll_wait", "poll"] + CLOCK
for _i in (16, 17, 18, 19, 31, 34, 37, 39):
    CHECKS[f"C{_i:02d}"] = dict(repo=ALL_LIB, harness=[f"p_C{_i:02d}.cpp", *REF], libs=NG, wrap=NET)
CHECKS["C17"]["san"] = False  # hundreds of connections per case; memory errors are C12, C18 and C19's
CHECKS["C31"]["repo"] = ALL_LIB + ["app/signal_handler.cpp"]
AUX = {"server": dict(repo=ALL_LIB + ["app/*.cpp"], harness=[], san=False, cov=False)}
CHECKS["C30"] = dict(repo=HPACK, harness=["p_C30.cpp", *REF], libs=NG, aux=["server"], fallback_repo=ALL_LIB)
CHECKS["C33"] = dict(repo=HPACK, harness=["p_C33.cpp", *REF], libs=NG, aux=["server"], fallback_repo=ALL_LIB)
CHECKS["C35"] = dict(repo=HPACK, harness=["p_C35.cpp", *REF], libs=NG, aux=["server"], fallback_repo=ALL_LIB)
CHECKS["C36"] = dict(repo=HPACK, harness=["p_C36.cpp", *REF], libs=NG, aux=["server"], fallback_repo=ALL_LIB)
TSAN = ["-fsanitize=thread"]
CHECKS["C38"] = dict(repo=ALL_LIB, harness=["p_C38.cpp", *REF], libs=NG, san=False, cov=False,
                     repo_flags=TSAN, harness_flags=TSAN, ldflags=TSAN)
