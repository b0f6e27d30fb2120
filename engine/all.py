"""python3 engine/all.py [fn…]: verdicts of all functions against the contracts"""
import sys, os, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import driver
t = time.time()
s = driver.Session('-t' not in sys.argv)
print('built %.1f' % (time.time() - t))
names = {a for a in sys.argv[1:] if a[0] != '-'} or None
rs = s.decide({'src': names, 'bitvec': names})
for r in sorted(rs, key=lambda r: r.st.get('wall', 0)):
    if r.how != 'identical IR' or '-v' in sys.argv:
        print(r.unit, r.sn, r.verdict, r.how, {k: v for k, v in r.st.items() if k in ('wall', 'why', 'notes')})
        for x in r.st.get('uncov', ())[:6]:
            print('      uncompared', str(x)[:300])
        for d in r.diffs[:8]:
            print('     ', '' if d[3] else '?', d[0], d[1], d[2][:300], '@', d[4], d[5])
s.close()
print('total %.1f' % (time.time() - t))
