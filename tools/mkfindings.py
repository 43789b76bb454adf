"""(maintenance) known_findings.txt: the fixed: lines from the fix commits, each with the property it repairs; known: lines are kept by hand in KNOWN"""
import subprocess
PROP = {
    '290acf2': 'C14', '1069a9c': 'C13', '2a64e61': 'C17',
    'ef819d2': 'C14',
    'ecaad6b': 'C14', 'fb0568c': 'C14', '9b2d8cf': 'C03',
    'f056fbe': 'C14', '41ec600': 'C12', '1446c59': 'C12', '8d267b5': 'C12', '24c1518': 'C12', 'df3d0d8': 'C12', '865f0ae': 'C12', '664e197': 'C14', 'a91dadc': 'C14', '0e619bc': 'C14', '91f3e50': 'C14', '4c5f425': 'C14', '99d0b96': 'C14', '736a2b2': 'C15', 'be20196': 'C14', 'e693c8b': 'C09', 'c6e6d0a': 'C09', 'b88e9ed': 'C09', '5856e46': 'C09', 'd7c5b2d': 'C09', '187dbd3': 'C08', '6fe0770': 'C07', '93b489c': 'C08', 'b43ec29': 'C08', '0f503cf': 'C08', 'd1532e3': 'C08', '07f5370': 'C08', '9489bc3': 'C07', '1376059': 'C07', 'fffc999': 'C07', '39b36c7': 'C10',
    '090357f': 'C15', 'eef9568': 'C13', 'eb39645': 'C13', 'f2f46e3': 'C13', '42c520a': 'C13', '00bd9ef': 'C13', '63d9a03': 'C13', '1fa4da8': 'C17', '4978682': 'C17',
    '629ba5a': 'C06', '6a2f769': 'C06',
 '102ac60': 'C05', '3ae3584': 'C05', 'ec1263e': 'C06', 'dbe1806': 'C05', 'e7ed428': 'C05', 'f82679c': 'C05', '27dac46': 'C05', '0309534': 'C05',
 '2f3cb76': 'C05', '7e5f37b': 'C06', '4998a9e': 'C05', 'dedfd76': 'C05', '37aa62c': 'C05', 'd8eb772': 'C06', '44fed9b': 'C15', 'c467462': 'C04',
 'eeb253b': 'C04', '5eaf133': 'C04', '7be85cf': 'C04', 'f748c01': 'C04', '5ff665e': 'C04', '0716308': 'C16', '4532b41': 'C02', 'fa29f59': 'C16',
 '5cb34b2': 'C01', '8fa69d5': 'C02', '3ca6474': 'C03', 'e5f1429': 'C03', 'c95fd6a': 'C03', '1ceae26': 'C03', 'ed62457': 'C03', '605b809': 'C03', '3b01c72': 'C02',
}
KNOWN = []
log = subprocess.run(['git', '-C', '/repo', 'log', '--reverse', '--format=%h %s', 'eb4e781..HEAD'], capture_output=True, text=True).stdout
out = ['# genuine defects of childe/healer found by the checks', '']
for line in log.splitlines():
    h, s = line.split(' ', 1)
    if s.startswith('fix:'):
        out.append('fixed: property=%s %s %s' % (PROP[h], h, s[5:]))
out += KNOWN
open('/verif/known_findings.txt', 'w').write('\n'.join(out) + '\n')
