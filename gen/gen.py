import sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import props
def main():
    pid, out = sys.argv[1], sys.argv[2]
    if out == '--count': print(len(props.programs(pid))); return
    src = props.generate(pid)
    os.makedirs(os.path.dirname(out), exist_ok=True)
    if os.path.exists(out) and open(out).read() == src: return
    open(out, 'w').write(src)
main()
