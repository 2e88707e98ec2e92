export HOME=/root LC_ALL=C.UTF-8 PYTHONDONTWRITEBYTECODE=1 PYTHONPATH=/tmp/pb PYTHONHASHSEED=0
cd /tmp/pb
/opt/venv/bin/python /tmp/pl/drv/check_sources.py >/tmp/pl/cs.log 2>&1 || { echo BUILDFAIL; exit; }
/opt/venv/bin/python -m pytest -q -W ignore -c /tmp/pl/drv/pytest.ini --rootdir=/tmp/pl/drv -p no:cacheprovider -n 8 --timeout=60 --tb=short /tmp/pl/drv 2>&1 | tail -1
