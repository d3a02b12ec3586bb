"""driver shared by the checks of configuration files: configparser's documented behaviour over an in-memory set of files"""
HEAD = '''
        import configparser, os
        from verif_out import out, stub, path
        FILES, DIRS = {}, {}
        class Ini:
            def __init__(self, *a, **k):
                self.sects = {}
            def read(self, filenames, encoding=None):
                if filenames not in FILES:
                    return []
                for s, opts in FILES[filenames].items():
                    if s not in self.sects:
                        self.sects[s] = {}
                    for k, v in opts.items():
                        self.sects[s][k.lower()] = v.strip()
                return [filenames]
            def sections(self):
                return list(self.sects.keys())
            def has_section(self, s):
                return s in self.sects
            def has_option(self, s, o):
                return s in self.sects and o.lower() in self.sects[s]
            def options(self, s):
                return list(self.sects[s].keys())
            def items(self, s):
                return list(self.sects[s].items())
            def get(self, s, o, fallback=None):
                return self.sects[s][o.lower()]
            def __getitem__(self, s):
                return self.sects[s]
            def __contains__(self, s):
                return s in self.sects
            def add_section(self, s):
                if s in self.sects:
                    raise configparser.DuplicateSectionError(s)
                self.sects[s] = {}
            def set(self, section, option, value=None):
                if not isinstance(value, str):
                    raise TypeError('option values must be strings')
                self.sects[section][option.lower()] = value
            def write(self, f, space_around_delimiters=True):
                FILES[path(f)] = {s: dict(o) for s, o in self.sects.items()}
        configparser.ConfigParser = Ini
        stub('os.listdir', lambda d='.': DIRS.get(d, []))
        import configfile
        from configfile import ConfigParser, CONFIG_PARAMS_TYPES
'''
