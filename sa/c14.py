"""C14 results depend on the arguments alone: effect analysis over every function body of the crate"""
from lib import *

# effects that reach outside the arguments: (what it is, callee or type)
DENY = [
    ('prints to the process output', r'std::io::(_print|_eprint|stdio\b|stdout|stderr|Stdout|Stderr|print_to)'),
    ('reads the process input', r'std::io::(stdin|Stdin)'),
    ('touches the file system', r'std::fs::|std::path::Path::(exists|is_file|is_dir|metadata|canonicalize|read_dir|try_exists)'),
    ('uses the network', r'std::net::|std::os::\w+::net'),
    ('uses processes', r'std::process::'),
    ('reads the environment', r'std::env::'),
    ('reads a clock', r'std::time::(Instant|SystemTime)|std::time::\w*::now'),
    ('depends on thread identity or timing', r'std::thread::(sleep|yield_now|current|park|available_parallelism|id|ThreadId)|rayon(_core)?::current_thread_index|rayon_core::yield'),
    ('keeps per-thread state', r'std::thread::LocalKey|std::thread::local'),
    ('uses a random source that is not an argument', r'\bOsRng\b|\bThreadRng\b|\bthread_rng\b|\brand::(random|rng|thread_rng)\b|getrandom::|\bfrom_entropy\b|\bfrom_os_rng\b|hash::(map::)?RandomState|hash::random::RandomState|std::hash::RandomState'),
    ('changes the panic hook', r'std::panic::(set_hook|take_hook)'),
    ('depends on the schedule', r'rayon::iter::\S*::(find_any|position_any|find_map_any|try_for_each_any|take_any|skip_any|take_any_while|skip_any_while)\b'),
    ('accesses memory in an unordered way', r'(core|std)::intrinsics::(volatile|atomic)|ptr::(read|write)_volatile'),
    ('depends on an address', r'ptr::\S*(::addr$|expose_provenance|expose_addr)'),
]
DENY = [(w, re.compile(p)) for w, p in DENY]
# shared state: as a static it is a violation, as a local it is a matter of schedules this rule does not decide
STATE = re.compile(r'\b(Cell|UnsafeCell|RefCell|OnceCell|OnceLock|Once|Mutex|RwLock|Atomic\w*|LazyLock|LazyCell|Condvar)\b')
SHARED = re.compile(r'\b(Mutex|RwLock|Atomic\w*|Condvar|mpsc)\b')
PURE_STD = re.compile(r'std::(f64|f32|io::|error::|string|vec|fmt|iter|ops|collections::(BTree|VecDeque|BinaryHeap)|hash::(Hash|Hasher|BuildHasher)\b|ascii|panicking|rt::|'
                      r'panic::|borrow|convert|mem|ptr|slice|option|result|array|cmp|num|ffi|thread::(scope|spawn|Scope|JoinHandle)|any|primitive)')
CRATES = {'core', 'alloc', 'halo2curves', 'ff', 'group', 'subtle', 'pairing', 'rand_core', 'rayon', 'rayon_core', 'serde', 'serde_core',
          'serde_arrays', 'hex', 'bitvec', 'digest', 'crypto_common', 'pasta_curves', 'blake2', 'sha2', 'num_bigint', 'num_traits',
          'num_integer', 'arrayvec', 'static_assertions', 'either', 'typenum', 'generic_array', 'byteorder', 'funty', 'tap', 'wyz', 'block_buffer'}
ASM = re.compile(r'\b(rdtsc\w*|rdrand|rdseed|cpuid|syscall|sysenter|rdpmc|xgetbv|rdpid|rdfsbase|rdgsbase|int 0x|in al|out )', re.I)
THREADS = ('src/msm.rs', 'src/fft.rs')       # where the dependence on the thread count is decided by C18 and C19


def short(p):
    return rel(p)


def judge(it, variant):
    """(violations, undecided) of one function body: lists of (what, where)"""
    V, U = [], []
    ev = it['ev']
    seen = set()
    def put(L, what, f, l):
        k = (what, f, l)
        if k not in seen:
            seen.add(k)
            L.append((what, f'{short(f)}:{l}'))
    closures = [a for e in ev if e[0] == 'call' for a in e[3]]
    for e in ev:
        f, l = e[-2], e[-1]
        if e[0] in ('call', 'fnval'):
            name, crate, args = e[1], e[2], e[3]
            txt = [name] + [a for a in args if not a.startswith('closure ')]
            hit = False
            for w, pat in DENY:
                for t in txt:
                    if pat.search(t):
                        put(V, f'{w}: {name}' + ('' if t == name else f' on {t}'), f, l)
                        hit = True
                        break
            if hit:
                continue
            if crate == 'lazy_static':
                # the initialiser must take nothing from the caller
                if any(a.startswith('closure ') and not a.endswith('captures ()') for a in args):
                    put(V, 'a lazily initialised static captures values of its first caller', f, l)
                continue
            if crate == 'std' and not PURE_STD.match(name):
                if SHARED.search(name) or 'sync' in name:
                    put(U, f'shared mutable state: {name}', f, l)
                else:
                    put(U, f'a standard library function this rule does not classify: {name}', f, l)
            elif crate == 'rayon_core' or crate == 'rayon':
                if 'num_threads' in name and not any(short(f) == t for t in THREADS):
                    put(V, f'depends on the number of threads: {name}', f, l)
            elif crate not in CRATES and crate != 'std':
                put(U, f'calls into a crate this rule does not classify: {crate} ({name})', f, l)
            if SHARED.search(name):
                put(U, f'shared mutable state: {name}', f, l)
        elif e[0] == 'tls':
            put(V, 'reads a thread-local', f, l)
        elif e[0] == 'static':
            (sname, sty, scrate), cty = e[1], e[2]
            if cty.startswith('*mut'):
                put(V, f'accesses the mutable static {sname}', f, l)
            elif re.match(r'lazy_static::lazy::Lazy<', sty):
                pass
            elif re.search(r'\bLazyLock<', sty) and re.search(r'LazyLock<.*(, fn\(\) -> .*)?>$', sty) and 'closure' not in sty:
                pass
            elif re.search(r'\bOnceLock<|\bOnceCell<', sty):
                caps = [a for a in closures if a.startswith('closure ') and not a.endswith('captures ()')]
                sets = [x for x in ev if x[0] == 'call' and re.search(r'Once(Lock|Cell).*::(set|try_insert|take|get_mut)$', x[1])]
                if caps or sets:
                    put(V, f'the static {sname} keeps a value that depends on its first caller', f, l)
            elif STATE.search(sty):
                put(V, f'accesses the static {sname} with interior mutability ({sty})', f, l)
        elif e[0] == 'cast':
            if 'Expose' in e[1] or e[1] == 'PtrToPtr' and False:
                put(U, f'converts a pointer to an integer ({e[2]} to {e[3]})', f, l)
            elif e[1] == 'Transmute' and (e[2].startswith(('&', '*')) and re.match(r'[ui](size|64)', e[3])):
                put(U, f'converts a pointer to an integer ({e[2]} to {e[3]})', f, l)
        elif e[0] == 'asm':
            m = ASM.search(e[1])
            if m:
                put(V, f'assembly reads machine state: {m.group(0)}', f, l)
    for t in it['locals']:
        if t.startswith('closure '):
            continue
        for w, pat in DENY:
            if pat.search(t):
                put(V, f'{w}: holds a {t}', it['span'][0], it['span'][1])
    return V, U


def main():
    chk = Check('C14', '', rule='no function body calls, holds or reads anything that is not derived from its arguments: output, files, network, '
                'environment, clock, thread identity, random sources other than an argument, mutable or interior-mutable statics, thread-locals',
                trusted=['this analyser and the effect dump driver', 'rustc', 'core, alloc and the dependency crates named in the rule have no such effects of their own'])
    for variant, feats in (('portable', ['curve']), ('asm', ['curve', 'asm'])):
        d = effects('C14' + variant, feats)
        n = 0
        for it in d['items']:
            n += 1
            oid = f'{variant}::{it["name"]}'
            chk.fns.add(it['name'])
            chk.steps += len(it['ev'])
            V, U = judge(it, variant)
            where = f'{it["name"]} ({short(it["span"][0])}:{it["span"][1]})'
            if V:
                for w, at in V:
                    chk.add(Obl(oid, 'effects of one function', 'violated', f'{w} at {at}', f'{where} at {at}'))
            elif U:
                chk.add(Obl(oid, 'effects of one function', 'undecided', '; '.join(f'{w} at {at}' for w, at in U), where))
            else:
                chk.add(Obl(oid, 'effects of one function', 'proved', '', where))
        if n < 2000:
            print('too few function bodies dumped')
            sys.exit(2)
    chk.finish()
