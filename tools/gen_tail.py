"""Writes tools/design_tail.md: the planted bugs kept in seeded/ and what was strengthened because of others."""
import json
import os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
o = ['## Planted bugs', '', 'Each change of /verif/seeded was written from a property and the code alone, builds, passes the 3170 tests, and has a demonstration '
     'that fails with it only. All of those kept are caught by the quick check of their property.', '', '| change | caught by | what it needs | what it breaks |', '|---|---|---|---|']
for d in sorted(os.listdir(V + '/seeded')):
    m = json.load(open('%s/seeded/%s/meta.json' % (V, d)))
    o.append('| %s | %s | %s | %s |' % (d, m['property'], m['needs'], m['what_it_breaks']))
o += ['', 'Many more were tried for detection only (self-hosting tests kill most changes of the native compiler, and changes of lines that a fix touched do not count). '
      'What missed at first, and what was done:', '']
o += ['- *Live registers above the 16th not saved across a call* (C11, C12; D05, D08): the call generator rarely kept more than a dozen values of one class alive. '
      '`lib/pressgen.py` was written for it and is used by C05, C08, C10, C11 and C12.',
      '- *fseek(SEEK_CUR) after ungetc on a memory stream* (C22; D12): memory streams were only positioned with SEEK_SET; now with all three.',
      '- *Status of a child forgotten in the driver* (C24; D19) and two others (D14, D15) turned out to be equivalent to the original.',
      '- *A linked weak definition, alignment of a later section, -S leaving its output behind, buffers of getline and fread* (C17, C24, C22; D09, D11, D13, D18): caught at once; not kept '
      'because an existing test sees them or because they change lines of a fix.', '']
open(V + '/tools/design_tail.md', 'w').write('\n'.join(o))
