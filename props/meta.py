META = {
    "C01": {"quick": 400, "level": "exploration"},
    "C02": {"quick": 400, "level": "exploration"},
    "C03": {"quick": 600, "level": "exploration"},
    "C04": {"quick": 300, "level": "fault_enumeration"},
    "C05": {"quick": 300, "level": "exploration"},
    "C06": {"quick": 500, "level": "fault_enumeration"},
    "C07": {"quick": 300, "level": "fault_enumeration"},
    "C08": {"quick": 300, "level": "fault_enumeration"},
    "C09": {"quick": 500, "level": "exploration"},
    "C10": {"quick": 500, "level": "exploration"},
    "C11": {"quick": 500, "level": "exploration"},
    "C12": {"quick": 400, "level": "exploration"},
    "C16": {"quick": 400, "level": "exploration"},
    "C13": {"quick": 600, "level": "exploration"},
    "C14": {"quick": 400, "level": "fault_enumeration", "stub": "network (sockets, name resolution), threads, clock"},
    "C15": {"quick": 400, "level": "fault_enumeration", "stub": "network (sockets, name resolution), threads, clock"},
    "C17": {"quick": 500, "level": "exploration", "stub": "clock, time zone, network, threads"},
    "C18": {"quick": 280, "level": "exploration", "stub": "threads, object hashes, the storage under shelve.Shelf, process restart (modules executed anew)"},
    "C19": {"quick": 240, "level": "exploration", "real": "examples/render/dynamic.py, its templates, Flask, Werkzeug, Jinja2, all of lib/acltk", "stub": "flask_shelve and the storage below it, threads, the HTTP server"},
    "C20": {"quick": 200, "level": "fault_enumeration", "real": "examples/render/dynamic.py, its templates, Flask, Werkzeug, all of lib/acltk", "stub": "flask_shelve and the storage below it, threads, the HTTP server, process restart"},
    "C21": {"quick": 400, "level": "fault_enumeration", "real": "examples/*.py, examples/render/static.py, its template, Jinja2, all of lib/acltk", "stub": "files, standard output, clock, object hashes"},
    "C23": {"quick": 400, "level": "exploration", "stub": "network, files, threads, clock"},
    "C22": {"quick": 180, "level": "exploration", "stub": "threads, object hashes, clock, storage below shelve; string hash seeds are really different processes"},
}
