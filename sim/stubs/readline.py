def parse_and_bind(s):
    pass


def set_completer_delims(s):
    pass


def set_completer(f=None):
    pass


def get_line_buffer():
    return ""
