"""Entry point: run_check.py <PROPERTY> [quick|thorough]."""
import os
import sys

os.environ.setdefault('TF_CPP_MIN_LOG_LEVEL', '3')
os.environ.setdefault('JAX_PLATFORMS', 'cpu')
os.environ.setdefault('XLA_FLAGS', '--xla_cpu_multi_thread_eigen=false')
os.environ.setdefault('OMP_NUM_THREADS', '1')
os.environ['PYTHONPATH'] = '/verif:/repo:' + os.environ.get('PYTHONPATH', '')
sys.dont_write_bytecode = True
os.environ['PYTHONDONTWRITEBYTECODE'] = '1'
for p in ('/repo', '/verif'):
  if p in sys.path:
    sys.path.remove(p)
  sys.path.insert(0, p)

if __name__ == '__main__':
  from symx import report
  rc = report.main(sys.argv[1], sys.argv[2] if len(sys.argv) > 2 else 'quick')
  sys.stdout.flush()
  os._exit(rc)
