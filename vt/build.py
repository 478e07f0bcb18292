"""Snapshot /repo's current working tree into scratch and build it there."""
import os, shutil, subprocess, tempfile

REPO = os.environ.get('VERIF_REPO', '/repo')

class BuildError(Exception):
    pass

def scratch_base(public=False):
    """public: other users have to be able to get there."""
    for d in ('/dev/shm', '/tmp', '/var/tmp'):
        try:
            st = os.statvfs(d)
        except OSError:
            continue
        if not os.access(d, os.W_OK) or public and not os.stat(d).st_mode & 1:
            continue
        if st.f_bavail * st.f_frsize > (2 << 30):
            return d
    return '/tmp'

def clean_env():
    env = {k: v for k, v in os.environ.items()
           if not k.startswith(('GIT_', 'BUP_', 'MAKE', 'PYTHON'))}
    env.update(HOME='/root', LANG='C.UTF-8', LC_ALL='C.UTF-8', TZ='UTC',
               PYTHONHASHSEED='0')
    env.pop('TMPDIR', None)
    env.pop('LD_PRELOAD', None)
    return env

def build(dest):
    os.makedirs(dest)
    env = clean_env()
    env['GIT_CONFIG_COUNT'] = '1'
    env['GIT_CONFIG_KEY_0'] = 'safe.directory'
    env['GIT_CONFIG_VALUE_0'] = '*'
    files = subprocess.run(['git', '-C', REPO, 'ls-files', '-z', '--cached',
                            '--others', '--exclude-standard'],
                           check=True, stdout=subprocess.PIPE, env=env).stdout
    for rel in sorted(set(filter(None, files.split(b'\0')))):
        src = os.path.join(os.fsencode(REPO), rel)
        if not os.path.lexists(src):
            continue
        dst = os.path.join(os.fsencode(dest), rel)
        os.makedirs(os.path.dirname(dst), exist_ok=True)
        if os.path.islink(src):
            os.symlink(os.readlink(src), dst)
        elif os.path.isdir(src):
            continue
        else:
            shutil.copy2(src, dst)
    env.pop('GIT_CONFIG_COUNT', None)
    # A repository of its own so that the version information resolves.
    def git(*a):
        e = dict(env, GIT_AUTHOR_NAME='v', GIT_AUTHOR_EMAIL='v@v',
                 GIT_COMMITTER_NAME='v', GIT_COMMITTER_EMAIL='v@v',
                 GIT_AUTHOR_DATE='1700000000 +0000',
                 GIT_COMMITTER_DATE='1700000000 +0000',
                 GIT_CONFIG_NOSYSTEM='1', HOME=dest)
        subprocess.run(['git', '-C', dest] + list(a), check=True, env=e,
                       stdout=subprocess.DEVNULL, stderr=subprocess.PIPE)
    git('init', '-q')
    git('add', 'README.md')
    git('commit', '-q', '-m', 'snapshot')
    env['BUP_PYTHON_CONFIG'] = '/usr/bin/python3.12-config'
    env['HOME'] = dest
    r = subprocess.run(['make', '-j8', 'lib/cmd/bup', 'lib/bup/_helpers.so',
                        'dev/bup-python', 'dev/bup-exec'], cwd=dest, env=env,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode:
        raise BuildError(r.stdout.decode(errors='replace')[-4000:])
    if not os.path.lexists(os.path.join(dest, 'bup')):
        os.symlink('lib/cmd/bup', os.path.join(dest, 'bup'))
    cmd = os.path.join(dest, 'lib/cmd/bup')
    os.rename(cmd, cmd + '.real')
    here = os.path.dirname(os.path.abspath(__file__))
    r = subprocess.run(['gcc', '-O1', '-w', '-o', cmd, os.path.join(here, 'vbup.c')],
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode:
        raise BuildError(r.stdout.decode(errors='replace')[-4000:])
    return dest

def build_shim(dest):
    here = os.path.dirname(os.path.abspath(__file__))
    so = os.path.join(dest, 'shim.so')
    r = subprocess.run(['gcc', '-O1', '-shared', '-fPIC', '-o', so,
                        os.path.join(here, 'shim.c'), '-ldl', '-lpthread'],
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode:
        raise BuildError(r.stdout.decode(errors='replace')[-4000:])
    return so
