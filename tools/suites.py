"""Which binaries decide which property, and how much of them each tier runs.

run: (flavor, quick scale, thorough scale, {options})
  flavor      fast / san / tsan build of harness/<suite>.cpp
  scale       multiplies the case counts of the suite's parts for that tier
  options     only: comma-separated parts
needs: further build targets whose paths are passed as --<key>=<path>
fuzz: seconds of coverage-guided fuzzing in the thorough tier
"""
SUITES = {
    "C01": dict(runs=[("fast", 0.5, 1), ("san", 0.02, 0.05)], fuzz=240),
    "C02": dict(runs=[("fast", 1, 1), ("san", 0.05, 0.05)], fuzz=0),
    "C03": dict(runs=[("fast", 1, 1), ("san", 0.1, 0.1)], fuzz=0),
    "C04": dict(runs=[("fast", 0.5, 1)], fuzz=0),
    "C05": dict(runs=[("fast", 1, 1), ("san", 0.1, 0.1)], fuzz=0),
    "C06": dict(runs=[("fast", 1, 1), ("tsan", 0.05, 0.2), ("san", 0.05, 0.1)], fuzz=0),
    "C07": dict(runs=[("fast", 0.7, 1), ("san", 0.05, 0.1)], fuzz=0),
    "C08": dict(runs=[("fast", 1.5, 1), ("san", 0.05, 0.1)], fuzz=0),
    "C09": dict(runs=[("fast", 0.6, 1), ("san", 0.02, 0.05)], fuzz=0),
    "C10": dict(runs=[("fast", 1.2, 1), ("san", 0.05, 0.1)], fuzz=0),
    "C11": dict(runs=[("fast", 2, 2), ("san", 0.15, 0.3)], fuzz=0),
    "C12": dict(runs=[("fast", 1, 3), ("san", 0.3, 1)], fuzz=240),
    "C13": dict(runs=[("fast", 1, 4), ("san", 0.1, 0.4)], fuzz=0),
    "C14": dict(runs=[("fast", 10, 100), ("san", 1, 10)], fuzz=0),
    "C16": dict(runs=[("fast", 2.5, 3)], needs={"cli": ("cli", "", "fast")}, fuzz=0),
    "C18": dict(runs=[("fast", 2, 3)], needs={"cli": ("cli", "", "fast")}, fuzz=0),
    "C17": dict(runs=[("fast", 2, 3)], needs={"cli": ("cli", "", "fast")}, fuzz=0),
    "C19": dict(runs=[("fast", 2, 3)], needs={"cli": ("cli", "", "fast")}, fuzz=0),
    "C20": dict(runs=[("fast", 1, 1)], needs={"so": ("so", "", "fast")}, fuzz=0),
    "C21": dict(runs=[("fast", 1, 1)], needs={"jni": ("jni", "", "fast")}, fuzz=0),
    "C22": dict(runs=[("fast", 1, 1), ("san", 0.05, 0.1)], fuzz=0),
}
