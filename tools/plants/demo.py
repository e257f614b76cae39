#!/usr/bin/env python3
"""Builds a small crate from ./src and the demonstration beside this file, and runs it."""
import os, re, resource, shutil, subprocess, sys, tempfile
here = os.path.dirname(os.path.abspath(__file__))
with tempfile.TemporaryDirectory(prefix='demo') as d:
    shutil.copytree('src', os.path.join(d, 'src'))
    for root, _, files in os.walk(os.path.join(d, 'src')):
        for f in files:
            p = os.path.join(root, f)
            t = open(p, encoding='utf8').read()
            t = re.sub(r'#\[derive\((?![^)]*Debug)', '#[derive(Debug, ', t)
            if root.endswith('src') and f == 'main.rs':
                t = re.sub(r'\bfn main\s*\(', 'fn original_main(', t, count=1)
                t = '#![allow(warnings)]\n' + t + '\nmod demo;\nfn main() { std::thread::Builder::new().stack_size(512 << 20).spawn(demo::run).unwrap().join().unwrap(); println!("demo: ok"); }\n'
            open(p, 'w', encoding='utf8').write(t)
    open(os.path.join(d, 'src', 'demo.rs'), 'w').write(open(os.path.join(here, 'prelude.rs')).read() + open(os.path.join(here, 'demo.rs')).read())
    open(os.path.join(d, 'Cargo.toml'), 'w').write('[package]\nname = "demo"\nversion = "0.1.0"\nedition = "2021"\n[workspace]\n[profile.dev]\nopt-level = 1\n')
    env = {k: v for k, v in os.environ.items() if not k.startswith(('CARGO_', 'RUSTFLAGS'))}
    for k in ('CARGO_HOME',):
        if k in os.environ: env[k] = os.environ[k]
    env.update(CARGO_TARGET_DIR=os.path.join(d, 'target'), CARGO_NET_OFFLINE='true')
    cargo, more = ['cargo'], []
    if os.path.exists(os.path.join(here, 'asan')):
        cargo, more = ['cargo', '+nightly'], ['--target', 'x86_64-unknown-linux-gnu']
        env['RUSTFLAGS'] = '-Zsanitizer=address'
    b = subprocess.run(cargo + ['build', '-q', '--offline'] + more, cwd=d, env=env)
    if b.returncode:
        sys.exit(3)
    exe = os.path.join(d, 'target', *(more[1:]), 'debug', 'demo')
    def limit():
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        if not more: resource.setrlimit(resource.RLIMIT_AS, (4 << 30, 4 << 30))
    try:
        sys.exit(1 if subprocess.run([exe], preexec_fn=limit, timeout=200).returncode else 0)
    except subprocess.TimeoutExpired:
        print('demo: no end'); sys.exit(1)
