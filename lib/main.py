import sys
pid = sys.argv[1]
if pid.startswith("C"):
    import codec_check as m
elif pid[0] in "PW":
    import front_check as m
elif pid[0] == "R":
    import run_check as m
elif pid[0] == "H":
    import hash_check as m
elif pid[0] == "G":
    import regen_check as m
else:
    import vk
    vk.die("unknown property " + pid)
m.check(pid)
