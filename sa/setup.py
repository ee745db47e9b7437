"""setup: build the extraction driver and extract once, so that the checks start from a warm cache"""
from .extract import extract

if __name__ == '__main__':
    for probe, cfg in (('probe', None), ('probe_cli', 'probe_cli.json')):
        d = extract(probe, cfg)
        print(probe, len(d['insts']), 'functions,', len(d['roots']), 'entry points')
