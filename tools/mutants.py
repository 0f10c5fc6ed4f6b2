"""Small changes to the crate, one at a time: which of them do its tests and the checks notice?

mutants.py make OUT.json [SEED]      lists changes to /repo/src
mutants.py run IN.json OUT.jsonl DIR [WORKERS] [FIRST] [LAST]
                                     tries each in copies of /repo and the harness below DIR
Works on copies only; nothing here is used by a check.
"""
import json, os, random, re, shutil, subprocess, sys, threading

FILES = ['demangler.rs', 'nodes/derived.rs', 'mangled_string.rs', 'nodes/enums.rs', 'nodes/mod.rs',
         'extensions.rs', 'lib.rs', 'cache.rs', 'nodes/intermediate.rs']
ORDER = 'C22 C07 C06 C05 C08 C09 C10 C13 C15 C16 C11 C12 C17 C14 C20 C21 C03 C01 C04 C02 C18 C19'.split()

CASES = {k: v for k, v in os.environ.items() if k == 'VERIF_PERCENT'}
# 'tests' only sorts out what the tests notice, 'checks' goes on with what's left of that
PHASE = os.environ.get('PHASE', 'both')


def sites(name, text):
    lines = text.split('\n')
    for i, l in enumerate(lines):
        s = l.strip()
        if not s or s.startswith(('//', '#', 'use ', 'mod ', 'pub mod', 'pub(crate) mod', 'pub struct', 'impl')):
            continue
        if 'mod tests' in l:
            break
        code = l.split(' //')[0]

        def sub(m, new):
            return code[:m.start()] + new + code[m.end():] + l[len(code):]
        for pat, new in [(r'&&', '||'), (r'\|\|', '&&'), (r' == ', ' != '), (r' != ', ' == '), (r' < ', ' <= '),
                         (r' > ', ' >= '), (r' >= ', ' > '), (r' <= ', ' < '), (r'\.is_some\(\)', '.is_none()'),
                         (r'\.is_none\(\)', '.is_some()'), (r'\btrue\b', 'false'), (r'\bfalse\b', 'true'),
                         (r' \+ 1\b', ''), (r' - 1\b', ''), (r' \+ ', ' - '), (r' - ', ' + '), (r'\|=', '='),
                         (r'\+=', '-='), (r'Qualifiers::Q_None', 'Qualifiers::Q_Const'), (r'!self', 'self'),
                         (r'!flags', 'flags'), (r'\.is_some_and\(', '.is_none_or('),
                         (r'QualifierMangleMode::Drop', 'QualifierMangleMode::Mangle'),
                         (r'QualifierMangleMode::Drop', 'QualifierMangleMode::Result'),
                         (r'QualifierMangleMode::Result', 'QualifierMangleMode::Drop'),
                         (r'QualifierMangleMode::Mangle', 'QualifierMangleMode::Drop'),
                         (r'NBB_Simple', 'NBB_Template'), (r'NBB_Template', 'NBB_Simple'),
                         (r', flags\)', ', flags | OutputFlags::NO_TAG_SPECIFIER)'),
                         (r', flags\)', ', flags | OutputFlags::NO_ACCESS_SPECIFIER)'),
                         (r', flags\)', ', flags | OutputFlags::NAME_ONLY)'),
                         (r', flags\)', ', flags.difference(OutputFlags::NAME_ONLY))'),
                         (r'output_post', 'output_pre'), (r'output_pre', 'output_post'),
                         (r'u32\b', 'u16'), (r'u64\b', 'u32')]:
            for m in re.finditer(pat, code):
                yield i, sub(m, new)
        for m in re.finditer(r'\b(\d+)\b', code):
            n = int(m.group(1))
            for k in {n + 1, max(n - 1, 0)} - {n}:
                yield i, sub(m, str(k))
        for m in re.finditer(r" \| FuncClass::FC_\w+|FuncClass::FC_\w+ \| ", code):
            yield i, sub(m, '')
        for m in re.finditer(r"'(.)' \| |\| '(.)'", code):
            yield i, sub(m, '')
        for m in re.finditer(r"'([A-Za-z0-9@?$_])'", code):
            c = m.group(1)
            yield i, sub(m, "'%s'" % chr(ord(c) + 1))
        for m in re.finditer(r'"([^"\\{}]+)"', code):
            t = m.group(1)
            if len(t) > 1:
                yield i, sub(m, '"%s"' % t[:-1])
            yield i, sub(m, '"%s"' % (t + ' '))
        m = re.match(r'^(\s*)(if|} else if) (?!let)(.*) \{$', code)
        if m:
            yield i, f'{m.group(1)}{m.group(2)} false && ({m.group(3)}) {{'
            yield i, f'{m.group(1)}{m.group(2)} true || ({m.group(3)}) {{'
        if s.endswith(';') and not s.startswith(('let ', 'return', 'use ', 'const ', 'type ')) and s.count('(') == s.count(')') and s.count('{') == s.count('}') and not s.startswith(('}', ')', '.')):
            yield i, ''
        if re.match(r"^\s*'.'( \| '.')* =>.*,$", code) or re.match(r'^\s*\w+::\w+(\(\w*\))? =>.*,$', code):
            yield i, ''


def make(out, seed):
    r = random.Random(seed)
    muts = []
    for f in FILES:
        text = open('/repo/src/' + f).read()
        lines = text.split('\n')
        for i, new in sites(f, text):
            if lines[i] != new:
                muts.append(dict(file=f, line=i, old=lines[i], new=new))
    r.shuffle(muts)
    for k, m in enumerate(muts):
        m['id'] = k
    json.dump(muts, open(out, 'w'))
    print(len(muts))


def sh(c, cwd, t, env=None):
    try:
        e = dict(os.environ, CARGO_NET_OFFLINE='true', CARGO_TERM_COLOR='never', **(env or {}))
        p = subprocess.Popen(c, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                             errors='replace', env=e, start_new_session=True)
        o, _ = p.communicate(timeout=t)
        return p.returncode, o
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9)
        p.communicate()
        return 124, ''


def run(inp, out, root, workers, first, last):
    muts = json.load(open(inp))[first:last]
    done = set()
    if os.path.exists(out):
        done = {json.loads(l)['id'] for l in open(out)}
    muts = [m for m in muts if m['id'] not in done]
    # those of the last commit, whatever is going on in /repo
    originals = {n: subprocess.check_output(['git', '-C', '/repo', 'show', 'HEAD:src/' + n], text=True) for n in FILES}
    lock = threading.Lock()
    f = open(out, 'a')

    def worker(w):
        d = f'{root}/w{w}'
        if not os.path.exists(d):
            os.makedirs(d)
            sh(f'git -C /repo archive --prefix=repo/ HEAD | tar x -C {d}', '/', 60)
            sh(f'git -C /verif archive --prefix=verif/ HEAD | tar x -C {d}', '/', 60)
            for p in ['verif/harness/Cargo.toml']:
                s = open(f'{d}/{p}').read().replace('"/repo"', f'"{d}/repo"')
                open(f'{d}/{p}', 'w').write(s)
        src = f'{d}/repo/src/'
        while True:
            with lock:
                if not muts:
                    return
                m = muts.pop(0)
            path = src + m['file']
            orig = originals[m['file']]
            lines = orig.split('\n')
            assert lines[m['line']] == m['old']
            lines[m['line']] = m['new']
            open(path, 'w').write('\n'.join(lines))
            res = dict(m)
            try:
                rc, o = 0, ''
                if PHASE != 'checks':
                    rc, o = sh('cargo test --lib --offline --quiet -- --test-threads 4', d + '/repo', 60)
                if rc:
                    res['by'] = 'build' if 'could not compile' in o else 'tests'
                else:
                    rc, o = 0, ''
                    if PHASE != 'checks':
                        rc, o = sh('cargo test --doc --offline --quiet', d + '/repo', 60)
                    if rc:
                        res['by'] = 'tests'
                    elif PHASE == 'tests':
                        res['by'] = None
                    else:
                        rc, o = sh('cargo build --release --offline --quiet', d + '/verif/harness', 300)
                        if rc:
                            res['by'] = 'harness?'
                        else:
                            res['by'] = None
                            for p in os.environ.get('ORDER', ' '.join(ORDER)).split():
                                rc, o = sh(f'target/release/verif check {p} quick', d + '/verif/harness', 300,
                                           dict(VERIF_DIR=d + '/verif', VERIF_SEED='1',
                                                **({} if p in ('C18', 'C19') else CASES)))
                                if rc:
                                    res['by'] = p if rc == 1 else f'{p} rc={rc}'
                                    break
            finally:
                open(path, 'w').write(orig)
            with lock:
                f.write(json.dumps(res) + '\n')
                f.flush()
    ts = [threading.Thread(target=worker, args=(w,)) for w in range(workers)]
    [t.start() for t in ts]
    [t.join() for t in ts]


if __name__ == '__main__':
    a = sys.argv
    if a[1] == 'make':
        make(a[2], int(a[3]) if len(a) > 3 else 1)
    else:
        run(a[2], a[3], a[4], int(a[5]) if len(a) > 5 else 3, int(a[6]) if len(a) > 6 else 0, int(a[7]) if len(a) > 7 else None)
