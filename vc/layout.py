"""Field offsets of the program's records, from the current headers (the contracts speak of fields, not of places)."""
import os, subprocess, tempfile
import build

FIELDS = {
    'filelist_t': ('files', 'max', 'count', 'ptr'),
    'table_row_t': ('key', 'data'),
    'table_t': ('length', 'used', 'max_data_length', 'default_translation', 'rows', 'hits', 'misses', 'overwrites', 'seeks', 'use_hash', 'builtin', 'max_key'),
    'filter_t': ('next', 'cleaner', 'filename', 'builtin', 'remove_trailing', 'max_length', 'table'),
    'sequence_t': ('next', 'name', 'filters', 'source_filename'),
    'config_file_t': ('sequences', 'files_to_ignore'),
    'options_t': ('dry_run', 'is_inline_bin', 'is_inline_mode', 'list_sequences', 'recurse', 'special', 'verbose', 'sequence_to_use', 'files_to_ignore', 'sequence_name', 'check_config_file', 'files'),
}
DEFAULT = {
    'filelist_t': (0, 8, 12, 16, 24), 'table_row_t': (0, 8, 16), 'table_t': (0, 4, 8, 16, 24, 32, 36, 40, 44, 48, 52, 56, 64), 'filter_t': (0, 8, 16, 24, 32, 40, 48, 56),
    'sequence_t': (0, 8, 16, 24, 32), 'config_file_t': (0, 8, 16), 'options_t': (0, 4, 8, 12, 16, 20, 24, 32, 40, 48, 56, 64, 72)}
_cache = {}


def one(t):
    """offsets of the fields of t, then its size"""
    if not _cache:
        _cache.update(DEFAULT)
        with tempfile.TemporaryDirectory(prefix='detoxvc.') as d:
            src = '#include <stddef.h>\n#include <stdio.h>\n#include "detox_struct.h"\nint main(void){\n'
            for k, fs in FIELDS.items():
                src += 'printf("%s' + ' %zu' * (len(fs) + 1) + '\\n", "%s", %s, sizeof(%s));\n' % (k, ', '.join('offsetof(%s, %s)' % (k, f) for f in fs), k)
            src += 'return 0;}\n'
            open(os.path.join(d, 'o.c'), 'w').write(src)
            try:
                r = subprocess.run([build.CLANG, '-w', '-I' + os.path.join(build.REPO, 'src'), '-I' + os.path.join(build.HERE, 'conf'), os.path.join(d, 'o.c'), '-o', os.path.join(d, 'o')], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
                if r.returncode == 0:
                    for l in subprocess.run([os.path.join(d, 'o')], stdout=subprocess.PIPE, text=True).stdout.splitlines():
                        w = l.split()
                        _cache[w[0]] = tuple(map(int, w[1:]))
            except OSError:
                pass
    return _cache[t]


if __name__ == '__main__':
    for t in FIELDS:
        print(t, one(t), one(t) == DEFAULT[t])
