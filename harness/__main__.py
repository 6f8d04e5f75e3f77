import os
import sys

REPO = os.environ.get('WEAC_REPO', '/repo')
sys.dont_write_bytecode = True
sys.path.insert(0, REPO)
# hypothesis lives in the verification venv; keep the project's own numpy first
sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')

from harness.core import main  # noqa: E402

if __name__ == '__main__':
    sys.exit(main(sys.argv[1:]))
