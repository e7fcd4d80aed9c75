PROPERTY = 'U07'
NEEDS = 'a file larger than what is read at once'
BREAKS = 'the checksum is that of the whole parts only'
EDITS = [('utilities/files.py', '''        if not chunk:
            break
        m.update(chunk)
''', '''        if not chunk:
            break
        m.update(chunk)
        if len(chunk) < chunk_whole // 2:
            m = md5_constructor(chunk)
''')]
# --- demo
import demo_lib as L
import hashlib
import os
from utilities.files import fl_get_stat

for n in (0, 10, 100, 65536, 65540, 131072, 150000):
    data = bytes(range(256)) * (n // 256) + b'x' * (n % 256)
    open('f.bin', 'wb').write(data)
    L.check(fl_get_stat('f.bin')[2] == hashlib.md5(data).hexdigest(),
            'checksum of %d bytes' % n)
    L.check(fl_get_stat('f.bin', 50)[2] == hashlib.md5(data).hexdigest(),
            'checksum of %d bytes' % n)
