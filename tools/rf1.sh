cd /verif/tools; timeout 880 python3 refactor.py "$@" 2>&1 | cut -c1-900
