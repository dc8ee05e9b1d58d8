"""Additional SMT back ends (used when the built-in z3 answers 'unknown')."""
import os, shutil, subprocess, tempfile


def _run(cmd, text, timeout):
    fd, path = tempfile.mkstemp(suffix='.smt2')
    try:
        with os.fdopen(fd, 'w') as f: f.write(text)
        try:
            p = subprocess.run(cmd + [path], capture_output=True, text=True, timeout=timeout + 2)
        except subprocess.TimeoutExpired:
            return 'timeout'
        out = p.stdout.strip().split('\n')
        return out[0] if out else ''
    finally:
        os.unlink(path)


def prove_smt2(text, timeout_ms):
    if os.environ.get("PYDV_NOBACKENDS"): return False, ""
    """Returns (True, backend) if one of the back ends shows unsatisfiability."""
    secs = max(1, timeout_ms // 1000)
    if shutil.which('cvc5'):
        t = '(set-logic ALL)\n' + text
        if _run(['cvc5', '--strings-exp', f'--tlimit={timeout_ms}'], t, secs) == 'unsat':
            return True, 'cvc5'
    if shutil.which('z3'):
        if _run(['z3', f'-T:{secs}'], text, secs) == 'unsat':
            return True, 'z3-4.8'
    return False, ''
