"""Model of the parts of the logging library the package may use (analysed in its place, never executed)."""
CRITICAL = 50
FATAL = 50
ERROR = 40
WARNING = 30
WARN = 30
INFO = 20
DEBUG = 10
NOTSET = 0
_nameToLevel = {'CRITICAL': 50, 'FATAL': 50, 'ERROR': 40, 'WARN': 30, 'WARNING': 30, 'INFO': 20, 'DEBUG': 10, 'NOTSET': 0}


def getLevelNamesMapping():
    return dict(_nameToLevel)


def getLevelName(level):
    if level in _nameToLevel:
        return _nameToLevel[level]
    return 'Level %s' % level


class Formatter:
    def __init__(self, fmt=None, datefmt=None, style='%'):
        self.fmt = fmt


class Handler:
    def __init__(self, level=0):
        self.level = level
        self.formatter = None

    def setFormatter(self, fmt):
        self.formatter = fmt

    def setLevel(self, level):
        self.level = level


class StreamHandler(Handler):
    def __init__(self, stream=None):
        self.level = 0
        self.formatter = None
        self.stream = stream


class NullHandler(Handler):
    pass


class Logger:
    def __init__(self, name, level=0):
        self.name = name
        self.level = level
        self.handlers = []
        self.propagate = True
        self.messages = []

    def setLevel(self, level):
        if isinstance(level, str):
            if level not in _nameToLevel:
                raise ValueError('Unknown level')
            level = _nameToLevel[level]
        self.level = level

    def addHandler(self, hdlr):
        if hdlr not in self.handlers:
            self.handlers.append(hdlr)

    def removeHandler(self, hdlr):
        if hdlr in self.handlers:
            self.handlers.remove(hdlr)

    def hasHandlers(self):
        return len(self.handlers) > 0 or (self.propagate and len(root.handlers) > 0)

    def info(self, msg):
        self.messages.append((20, msg))

    def warning(self, msg):
        self.messages.append((30, msg))

    def error(self, msg):
        self.messages.append((40, msg))

    def debug(self, msg):
        self.messages.append((10, msg))


root = Logger('root', 30)
_loggers = {}


def getLogger(name=None):
    if name is None or name == '' or name == 'root':
        return root
    if name not in _loggers:
        _loggers[name] = Logger(name)
    return _loggers[name]
