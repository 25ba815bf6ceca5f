#!/bin/bash
# Installs hypothesis from the offline wheelhouse next to the framework.  The
# checks also work without this step (see check.sh), it only makes them
# independent of the location of the python tooling venv.
cd "$(dirname "$0")" || exit 2
if [ ! -d .deps/hypothesis ]; then
  rm -rf "$PWD/.deps"
  /opt/venv/bin/python -m pip install -q --no-index --disable-pip-version-check \
    --find-links /opt/veriftools/wheels --target "$PWD/.deps" hypothesis \
    >/dev/null 2>&1 || rm -rf "$PWD/.deps"
fi
mkdir -p evidence replays
/opt/venv/bin/python -m compileall -q pbt >/dev/null 2>&1
exec bash check.sh --self-test
