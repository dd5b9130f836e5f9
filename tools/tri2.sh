/opt/venv/bin/python /tmp/tri.py $1 $2 | cut -c1-420 | head -${3:-40}
