#!/usr/bin/env python3
"""Verifies that what the checks need is present (compiler, Eigen, sanitizer runtimes). Builds nothing that is kept."""
import os, subprocess, sys, tempfile
src = '#include <Eigen/Core>\n#include <cstdio>\nint main(){ Eigen::Vector2d v(1,2); printf("%g\\n", v.sum()); }\n'
with tempfile.TemporaryDirectory() as d:
    f = os.path.join(d, 'a.cpp')
    open(f, 'w').write(src)
    for fl in (['-O1'], ['-fsanitize=address,undefined'], ['-fsanitize=thread']):
        r = subprocess.run(['/usr/bin/g++', '-std=c++20', '-I/usr/include/eigen3', f, '-o', f + '.exe'] + fl, capture_output=True, text=True)
        if r.returncode:
            print('cannot build with', fl, r.stderr[:500]); sys.exit(1)
    r = subprocess.run([f + '.exe'], capture_output=True, text=True)
    print('toolchain ok', r.stdout.strip())
