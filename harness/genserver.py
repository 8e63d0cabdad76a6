"""Runs the generator's command line in forked children of one process that has only imported it (saves the import time).
   stdin: JSON lines {"cwd", "argv", "times"}; stdout: JSON lines {"rc", "log"}"""
import json, os, sys, tempfile, traceback
import jinja2

CACHE = sys.argv[1] if len(sys.argv) > 1 else None
if CACHE:
    # compiled templates are shared by the runs of one check (the cache is keyed by the template's text)
    class Environment(jinja2.Environment):
        def __init__(self, *a, **kw):
            kw.setdefault('bytecode_cache', jinja2.FileSystemBytecodeCache(CACHE))
            super().__init__(*a, **kw)
    jinja2.Environment = Environment

import vrtgen.main, vrtgen.parser.loader, vrtgen.backend.cpp.generator, yaml  # noqa

for line in sys.stdin:
    job = json.loads(line)
    fd, path = tempfile.mkstemp(dir=job['cwd'], prefix='.log')
    rc = 0
    for _ in range(job['times']):
        pid = os.fork()
        if pid == 0:
            code = 70
            try:
                os.dup2(fd, 1)
                os.dup2(fd, 2)
                os.chdir(job['cwd'])
                sys.argv = ['vrtgen'] + job['argv']
                try:
                    vrtgen.main.main()
                    code = 0
                except SystemExit as e:
                    if e.code is None:
                        code = 0
                    elif isinstance(e.code, int):
                        code = e.code
                    else:
                        print(e.code, file=sys.stderr)
                        code = 1
                except BaseException:
                    traceback.print_exc()
                    code = 1
                sys.stdout.flush()
                sys.stderr.flush()
            finally:
                os._exit(code)
        _, st = os.waitpid(pid, 0)
        rc = os.waitstatus_to_exitcode(st)
        if rc:
            break
    os.close(fd)
    log = open(path, errors='replace').read()
    os.unlink(path)
    print(json.dumps({'rc': rc, 'log': log}), flush=True)
