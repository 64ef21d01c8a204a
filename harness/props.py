XWRAP = ["-Wl,--wrap=malloc,--wrap=free,--wrap=calloc,--wrap=realloc,--wrap=posix_memalign,--wrap=read,--wrap=write,--wrap=pread,--wrap=pwrite,--wrap=dup,--wrap=lseek,--wrap=fstat,--wrap=stat,--wrap=fsync,--wrap=pipe,--wrap=chdir,--wrap=fchmod,--wrap=socket,--wrap=mkstemp,--wrap=ftruncate,--wrap=open,--wrap=fcntl,--wrap=getcwd,--wrap=newlocale,--wrap=duplocale,--wrap=strdup,--wrap=realpath,--wrap=get_current_dir_name"]
XLONE = {"MT_LONE": "1", "PBT_RULE": "2-6 threads run generated transactions on shared data under a generated schedule (see the harness for the "
    "operations). Oracle: a transaction is restarted (other than to become irrevocable) only if another one was active at some "
    "time since the operation began. Non-trivial: a transaction went on alone after one that had been active at its side ended."}
PROPS = {
 "C01": {"runs": [{"harness": "tm_mem", "mods": ["tm"], "weight": 3},
                  {"harness": "tm_big", "mods": ["tm"], "weight": 1}]},
 "C02": {"runs": [{"harness": "tm_conc", "mods": ["tm"], "mode": "race", "variant": "fine", "weight": 2},
                  {"harness": "tm_conc", "mods": ["tm"], "mode": "sched", "variant": "plain", "weight": 2},
                  {"harness": "tm_conc", "mods": ["tm"], "mode": "stress", "variant": "plain", "jobs": 2, "weight": 1}]},
 "C09": {"runs": [{"harness": "err", "mods": []}]},
 "R01": {"runs": [{"harness": "leak", "mods": ["libc", "libm", "tm", "txlib"], "variant": "plain"}]},
 "A01": {"runs": [{"harness": "arith", "mods": ["cast", "arithmetic"], "mode": "cast", "variant": "plain"}]},
 "A02": {"runs": [{"harness": "arith", "mods": ["cast", "arithmetic"], "mode": "arith", "variant": "plain"}]},
 "T01": {"runs": [{"harness": "cont", "mods": ["txlib"], "mode": "list"}]},
 "T02": {"runs": [{"harness": "cont", "mods": ["txlib"], "mode": "multiset"}]},
 "T03": {"runs": [{"harness": "cont", "mods": ["txlib"], "mode": "queue"}]},
 "T04": {"runs": [{"harness": "cont", "mods": ["txlib"], "mode": "stack"}]},
 "M01": {"runs": [{"harness": "mathfn", "mods": ["libm"], "variant": "plain", "cflags": ["-fno-builtin", "-frounding-math"]}]},
 "C06": {"runs": [{"harness": "rwl", "mods": [], "mode": "stress", "variant": "fine", "weight": 2, "ldflags": ["-Wl,--wrap=clock_gettime"]},
                  {"harness": "rwl", "mods": [], "mode": "sched", "variant": "plain", "ldflags": ["-Wl,--wrap=clock_gettime,--wrap=pthread_cond_timedwait"]},
                  {"harness": "rwl", "mods": [], "mode": "stress", "variant": "plain", "jobs": 4, "ldflags": ["-Wl,--wrap=clock_gettime,--wrap=pthread_cond_timedwait"]},
                  {"harness": "spin", "mods": [], "variant": "plain", "jobs": 2, "weight": 0.3}]},
 "C03": {"runs": [{"harness": "life", "mods": []}]},
 "C04": {"runs": [{"harness": "irr", "mods": ["tm"], "mode": "stress", "variant": "fine", "weight": 2, "ldflags": ["-Wl,--wrap=clock_gettime"]},
                  {"harness": "irr", "mods": ["tm"], "mode": "sched", "variant": "plain", "ldflags": ["-Wl,--wrap=clock_gettime,--wrap=pthread_cond_timedwait"]},
                  {"harness": "irr", "mods": ["tm"], "mode": "stress", "variant": "plain", "jobs": 4, "ldflags": ["-Wl,--wrap=clock_gettime,--wrap=pthread_cond_timedwait"]}]},
 "L01": {"runs": [{"harness": "lib", "mods": [], "mode": "treemap", "variant": "fine", "weight": 1, "ldflags": ["-Wl,--wrap=malloc"]},
                  {"harness": "lib", "mods": [], "mode": "treemap", "ldflags": ["-Wl,--wrap=malloc"]}]},
 "L02": {"runs": [{"harness": "lib", "mods": [], "mode": "ref", "variant": "fine", "weight": 1, "ldflags": ["-Wl,--wrap=malloc"]},
                  {"harness": "lib", "mods": [], "mode": "ref", "ldflags": ["-Wl,--wrap=malloc"]}]},
 "L03": {"runs": [{"harness": "lib", "mods": [], "mode": "seq", "ldflags": ["-Wl,--wrap=malloc"]}]},
 "S01": {"runs": [{"harness": "str", "mods": ["libc"], "weight": 3}, {"harness": "strtm", "mods": ["libc"], "weight": 1}]},
 "H01": {"runs": [{"harness": "heap", "mods": ["libc"], "ldflags": ["-Wl,--wrap=malloc,--wrap=free,--wrap=posix_memalign"]},
                  {"harness": "heap", "mods": ["libc"], "variant": "plain", "ldflags": ["-Wl,--wrap=malloc,--wrap=free,--wrap=posix_memalign"]}]},
 "S03": {"runs": [{"harness": "errn", "mods": ["libc", "libm"]}]},
 "S02": {"runs": [{"harness": "fmt", "mods": ["libc"], "variant": "plain"}]},
 "F01": {"runs": [{"harness": "fio", "mods": ["libc"], "mode": "data", "weight": 3},
                  {"harness": "fbig", "mods": ["libc", "tm"], "weight": 1}]},
 "F02": {"runs": [{"harness": "fio", "mods": ["libc"], "mode": "undo"}]},
 "F05": {"runs": [{"harness": "fio", "mods": ["libc"], "mode": "fd", "weight": 2},
                  {"harness": "fdany", "mods": ["libc", "tm"], "weight": 2}]},
 "T05": {"runs": [{"harness": "conc", "mods": ["txlib"], "mode": "race", "variant": "fine", "weight": 2},
                  {"harness": "conc", "mods": ["txlib"], "mode": "sched", "variant": "plain", "weight": 2},
                  {"harness": "conc", "mods": ["txlib"], "mode": "race", "weight": 1},
                  {"harness": "conc", "mods": ["txlib"], "mode": "stress", "variant": "plain", "weight": 1, "jobs": 3}]},
 "F03": {"runs": [{"harness": "fconc", "mods": ["libc"], "mode": "race", "variant": "fine", "weight": 2},
                  {"harness": "fconc", "mods": ["libc"], "mode": "sched", "variant": "plain", "weight": 2},
                  {"harness": "fconc", "mods": ["libc"], "mode": "race", "weight": 1}]},
 "F04": {"runs": [{"harness": "sconc", "mods": ["libc"], "mode": "race", "variant": "fine", "weight": 1},
                  {"harness": "stream", "mods": ["libc", "tm"], "mode": "seq", "weight": 2},
                  {"harness": "sconc", "mods": ["libc"], "mode": "sched", "variant": "plain", "weight": 2},
                  {"harness": "sconc", "mods": ["libc"], "mode": "race", "weight": 1},
                  {"harness": "sconc", "mods": ["libc"], "mode": "block", "variant": "plain", "weight": 1}]},
 "D01": {"runs": [{"harness": "pconc", "mods": ["libc", "tm"], "mode": "cwdrace", "variant": "fine", "weight": 1},
                  {"harness": "fsop", "mods": ["libc", "tm"], "mode": "cwd", "weight": 2},
                  {"harness": "pconc", "mods": ["libc", "tm"], "mode": "cwd", "variant": "plain", "weight": 2},
                  {"harness": "pconc", "mods": ["libc", "tm"], "mode": "cwdrace", "weight": 1}]},
 "F06": {"runs": [{"harness": "fsop", "mods": ["libc", "tm"], "mode": "names", "weight": 1}]},
 "D02": {"runs": [{"harness": "pconc", "mods": ["libc", "tm"], "mode": "locrace", "variant": "fine", "weight": 1},
                  {"harness": "locl", "mods": ["libc", "tm"], "mode": "seq", "weight": 2},
                  {"harness": "pconc", "mods": ["libc", "tm"], "mode": "loc", "variant": "plain", "weight": 2},
                  {"harness": "pconc", "mods": ["libc", "tm"], "mode": "locrace", "weight": 1}]},
 "D03": {"runs": [{"harness": "sig", "mods": ["libc", "tm"], "mode": "seq", "variant": "plain", "weight": 2},
                  {"harness": "sig", "mods": ["libc", "tm"], "mode": "race", "variant": "plain", "weight": 1}]},
 "P01": {"runs": [{"harness": "ptrd", "mods": ["ptrdata"], "mode": "race", "variant": "fine", "weight": 1, "ldflags": ["-Wl,--wrap=malloc,--wrap=free,--wrap=calloc,--wrap=realloc,--wrap=posix_memalign"]},
                  {"harness": "ptrd", "mods": ["ptrdata"], "mode": "seq", "weight": 2, "ldflags": ["-Wl,--wrap=malloc,--wrap=free,--wrap=calloc,--wrap=realloc,--wrap=posix_memalign"]},
                  {"harness": "ptrd", "mods": ["ptrdata"], "mode": "race", "variant": "plain", "weight": 1, "ldflags": ["-Wl,--wrap=malloc,--wrap=free,--wrap=calloc,--wrap=realloc,--wrap=posix_memalign"]}]},
 "C05": {"runs": [{"harness": "xmod", "mods": ["libc", "libm", "tm", "txlib"], "mode": "all", "ldflags": XWRAP}]},
 "H02": {"runs": [{"harness": "xmod", "mods": ["libc", "libm", "tm", "txlib"], "mode": "fault", "ldflags": XWRAP}]},
 "E01": {"runs": [{"harness": "pexit", "mods": ["libc", "tm"], "variant": "plain", "weight": 2},
                  {"harness": "pexit", "mods": ["libc", "tm"], "weight": 1}]},
 "C08": {"runs": [{"harness": "xconc", "mods": ["libc", "tm", "txlib"], "mode": "sched", "variant": "plain", "weight": 2, "env": XLONE},
                  {"harness": "tm_conc", "mods": ["tm"], "mode": "sched", "variant": "plain", "weight": 1, "env": XLONE},
                  {"harness": "conc", "mods": ["txlib"], "mode": "sched", "variant": "plain", "weight": 1, "env": XLONE},
                  {"harness": "fconc", "mods": ["libc"], "mode": "sched", "variant": "plain", "weight": 2, "env": XLONE},
                  {"harness": "sconc", "mods": ["libc"], "mode": "sched", "variant": "plain", "weight": 1, "env": XLONE},
                  {"harness": "pconc", "mods": ["libc", "tm"], "mode": "cwd", "variant": "plain", "weight": 1, "env": XLONE},
                  {"harness": "pconc", "mods": ["libc", "tm"], "mode": "loc", "variant": "plain", "weight": 2, "env": XLONE},
                  {"harness": "xconc", "mods": ["libc", "tm", "txlib"], "mode": "race", "variant": "fine", "weight": 1, "env": XLONE}]},
 "C07": {"runs": [{"harness": "xconc", "mods": ["libc", "tm", "txlib"], "mode": "race", "variant": "fine", "weight": 2},
                  {"harness": "xconc", "mods": ["libc", "tm", "txlib"], "mode": "sched", "variant": "plain", "weight": 2},
                  {"harness": "xconc", "mods": ["libc", "tm", "txlib"], "mode": "race", "weight": 1}]},
}

# schedules and faults have more to explore
for _p in ("C02", "C04", "C05", "C07", "E01", "F03", "F04", "H02", "T05"):
    PROPS[_p]["quick_s"] = 28.0
