ENGINES = {
    "seq": {
        "sources": ["seq.c"],
        "repo_flags": ["-O1", "-fsanitize=address", "--param=asan-globals=1"],
        "engine_flags": ["-O1", "-fsanitize=address"],
        "harness_flags": ["-O1", "-fsanitize=address"],
        "link_flags": ["-fsanitize=address"],
        "harness_inside": False,
        "redefine": {"malloc": "sq_malloc", "calloc": "sq_calloc", "realloc": "sq_realloc", "free": "sq_free",
                     "strdup": "sq_strdup", "strndup": "sq_strndup",
                     "vasprintf": "sq_vasprintf", "asprintf": "sq_asprintf",
                     "printf": "sq_printf", "puts": "sq_puts", "putchar": "sq_putchar",
                     "abort": "sq_abort", "__assert_fail": "sq_assert_fail"},
    },
}

def _cx():
    r = {}
    for n in "malloc calloc realloc free strdup strndup memcpy memmove memset memcmp strlen strcpy strncpy strcat strcmp strncmp".split():
        r[n] = "cx_" + n
    for n in "init destroy lock trylock unlock timedlock".split():
        r["pthread_mutex_" + n] = "cx_mutex_" + n
    for n in "init destroy wait timedwait signal broadcast".split():
        r["pthread_cond_" + n] = "cx_cond_" + n
    for n in "init destroy rdlock wrlock tryrdlock trywrlock unlock".split():
        r["pthread_rwlock_" + n] = "cx_rw_" + n
    for n in "create join detach self equal exit setname_np getname_np cancel kill".split():
        r["pthread_" + n] = "cx_pthread_" + n
    for n in "init destroy wait timedwait trywait post getvalue".split():
        r["sem_" + n] = "cx_sem_" + n
    r["pthread_once"] = "cx_once"
    r["pthread_key_create"] = "cx_key_create"
    r["pthread_key_delete"] = "cx_key_delete"
    r["pthread_getspecific"] = "cx_getspecific"
    r["pthread_setspecific"] = "cx_setspecific"
    for n in "sigaction time gettimeofday clock_gettime usleep sleep nanosleep clock_nanosleep sched_yield gettid syscall prctl abort".split():
        r[n] = "cx_" + n
    r["__assert_fail"] = "cx_assert_fail"
    for n in ("gmtime localtime asctime ctime strtok strtok_r rand srand strchr strrchr strstr strnlen strcasecmp strncasecmp "
              "snprintf vsnprintf sprintf vsprintf strftime asprintf vasprintf").split():
        r[n] = "cx_" + n
    r["fprintf"] = "cx_fprintf"
    return r


ENGINES["cx"] = {
    "sources": ["conc.c"],
    "inner_sources": ["cx_libc.c"],
    "repo_flags": ["-O0", "-fsanitize=thread", "-fno-builtin"],
    "engine_flags": ["-O2", "-fno-builtin"],
    "harness_flags": ["-O1", "-fno-builtin"],
    "link_flags": [],
    "harness_inside": True,
    "redefine": _cx(),
}
VFS = {n: "vfs_" + n for n in "fopen fclose freopen fprintf vfprintf fwrite fread fgets fputs fputc fflush fileno mkdir access stat remove rename opendir readdir closedir".split()}
VFS.update({"putc": "vfs_putc", "unlink": "vfs_unlink", "lstat": "vfs_lstat"})
PROPS = {}


def cx(file, **kw):
    return dict(engine="cx", file=file, **kw)



def prop(pid, *parts, **kw):
    PROPS[pid] = dict(parts=list(parts), **kw)


def vfs(part):
    return dict(part, sources=part.get("sources", []) + ["vfs.c"], redefine=dict(part.get("redefine", {}), **VFS))


def seq(file, **kw):
    return dict(engine="seq", file=file, **kw)


RELEASE = ["-U_DEBUG", "-DNDEBUG"]


def release(part, **kw):
    """The same part on a release build of the library (the harness keeps its own flags)."""
    return dict(part, repo_flags=part.get("repo_flags", []) + RELEASE, flavour="release build", **kw)


prop("R01", seq("r01_ringbuffer.c"))
prop("R03", cx("r03_spsc.c"))
for i in (1, 2, 3):
    prop("T%02d" % i, cx("t_thpool.c", flags=["-DPART=%d" % i]))
for i in (1, 2):
    prop("H%02d" % i, cx("h_handler.c", flags=["-DPART=%d" % i]))
prop("H03", cx("h_fixed.c"))
prop("R02", seq("r_queues.c", flags=["-DPART=2"]))
prop("R04", seq("r_queues.c", flags=["-DPART=4"]), cx("r04_cover.c"), release(seq("r_queues.c", flags=["-DPART=4"])))
prop("R05", seq("r_queues.c", flags=["-DPART=5"]), release(seq("r_queues.c", flags=["-DPART=5"])))
prop("R06", seq("r_queues.c", flags=["-DPART=6"]), release(seq("r_queues.c", flags=["-DPART=6"])))
prop("D01", seq("d_hashmap.c"))
prop("D02", cx("d_hashmap_mt.c"))
prop("D03", seq("d_list.c"))
prop("D04", seq("d_array.c"))
prop("D05", seq("d_codec.c", flags=["-DPART=5"]))
prop("D06", seq("d_codec.c", flags=["-DPART=6"]))
prop("D07", seq("d_codec.c", flags=["-DPART=7", "-O2"], repo_flags=["-O2"]))
prop("D08", seq("d_macros.c", more=[("d_macros.inc", ["-DMAC_PREFIX=dbg_", "-D_DEBUG", "-UNDEBUG", "-DMAC_ENUM"]), ("d_macros.inc", ["-DMAC_PREFIX=rel_"] + RELEASE)]))
prop("M01", seq("m_mplite.c"), cx("m_mplite_mt.c"), seq("m_mplite.c", repo_flags=["-DMPLITE_DEBUG=1"], flavour="freed memory overwritten", thorough_only=True))
prop("M02", seq("m_tracker.c"), release(seq("m_tracker.c")))
prop("M03", cx("m_tracker_mt.c"))
prop("M04", seq("m_strings.c"))
prop("M05", seq("m_sb.c"))
for i in (6, 7):
    prop("M%02d" % i, seq("m_params.c", flags=["-DPART=%d" % i]))
for i in (1, 2, 3, 4):
    _p = vfs(seq("f_ini.c", flags=["-DPART=%d" % i]))
    _more = [release(_p, thorough_only=i == 2)] if i in (2, 3) else []
    if i == 4:
        for _n, _f in (("lines on the heap", ["USE_STACK=0", "ALLOW_REALLOC=1", "MAX_LINE=450", "HANDLER_LINENO=1"]),
                       ("own allocator, no continuation lines, stop at an error, sections announced", ["USE_STACK=0", "ALLOW_REALLOC=1", "MAX_LINE=450", "CUSTOM_ALLOCATOR=1", "ALLOW_MULTILINE=0", "STOP_ON_FIRST_ERROR=1", "CALL_HANDLER_ON_NEW_SECTION=1"]),
                       ("no comments in lines, no byte-order mark, no names without value", ["USE_STACK=0", "ALLOW_INLINE_COMMENTS=0", "ALLOW_BOM=0", "ALLOW_NO_VALUE=0", "HANDLER_LINENO=1"])):
            _d = ["-DINI_" + x for x in _f]
            _more.append(dict(_p, flags=_p["flags"] + _d, repo_flags=_p.get("repo_flags", []) + _d, flavour=_n))
    prop("F%02d" % i, _p, *_more)
for i in (5, 6, 7):
    prop("F%02d" % i, vfs(seq("f_file.c", flags=["-DPART=%d" % i], redefine={"read": "ff_read", "write": "ff_write"})))
CT = {"time": "ct_time", "gettimeofday": "ct_gettimeofday", "clock_gettime": "ct_clock_gettime"}
prop("C01", seq("c_time.c", flags=["-DPART=1", "-O2"], repo_flags=["-O2"], redefine=CT))
prop("C02", seq("c_time.c", flags=["-DPART=2"], redefine=CT), cx("c_cache_mt.c", redefine={"gettimeofday": "ct_gettimeofday"}))
prop("C03", seq("c_time.c", flags=["-DPART=3"], redefine=CT))
prop("T04", cx("t_prims.c"))
prop("L01", vfs(cx("l_filelog.c")), release(vfs(cx("l_filelog.c"))))
XL = {n: "xl_" + n for n in "printf vprintf puts putchar fprintf vfprintf fputs fputc fwrite fflush fclose freopen fopen gettimeofday time gettid syscall".split()}
XL.update({"putc": "xl_putc", "clock_gettime": "xl_clock_gettime", "pthread_mutex_lock": "xl_mutex_lock", "pthread_mutex_unlock": "xl_mutex_unlock"})
for i in (2, 4):
    prop("L%02d" % i, seq("l_xlog.c", flags=["-DPART=%d" % i], redefine=XL))
NOREDIR = ["-D_LCU_LOGGER_UNSUPPORT_STDOUT_REDIRECT=1"]
prop("L06", seq("l_xlog.c", flags=["-DPART=6"], redefine=XL, more=[("l_front.inc", ["-DFRONT=%d" % i, "-Dprintf=xl_printf"]) for i in range(1, 10)]),
     seq("l_xlog.c", flags=["-DPART=6"] + NOREDIR, repo_flags=NOREDIR, redefine=XL, flavour="no redirection", more=[("l_front.inc", ["-DFRONT=%d" % i, "-Dprintf=xl_printf"] + NOREDIR) for i in range(10, 14)]))
_l3 = vfs(cx("l_xlog_mt.c"))
_l3["redefine"] = dict(_l3["redefine"], **{n: "xm_" + n for n in "printf vprintf puts putchar".split()})
prop("L03", _l3)
prop("L05", cx("l_init.c", redefine=dict({n: "xm_" + n for n in "printf vprintf puts putchar".split()}, gettimeofday="ct_gettimeofday")))
prop("M08", vfs(cx("m_memcheck.c", flags=["-D_LCU_MEM_CHECK_FEATURE_ENABLE=1"], repo_flags=["-D_LCU_MEM_CHECK_FEATURE_ENABLE=1"])))
prop("S01", vfs(cx("s_separate.c")))
