#!/bin/sh
# builds what the checks share; everything is rebuilt from /repo when its sources change
cd "$(dirname "$0")" || exit 1
python3-vt lib/build.py || exit 1
exec python3-vt -c "import sys; sys.path.insert(0, 'lib'); import cx; cx.tools(); cx.bitcode('cc1'); cx.bitcode('cpp')"
