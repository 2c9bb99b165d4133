"""Answers questions about queries in a process with another hash seed: one JSON line in, one out."""
import json
import os
import sys

if __name__ == "__main__":
    sys.dont_write_bytecode = True
    sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
    sys.path.insert(0, os.environ.get("VERIF_REPO", "/repo"))
    from lib.props_history import answer

    for line in sys.stdin:
        sql = json.loads(line)
        print(json.dumps([answer("format_sql", sql), answer("is_valid", sql), answer("errors", sql)]), flush=True)
