"""Run configuration of every check: number of cases per tier, objects to link, what must be observed."""
PROPS = {
    "V01": dict(quick=40000, thorough=2000000),
    "V02": dict(quick=20000, thorough=1000000),
    "V03": dict(quick=20000, thorough=1000000, max_alloc_mb=1),
    "V04": dict(quick=10000, thorough=1000000),
    "V05": dict(quick=10000, thorough=1000000),
    "V06": dict(quick=12000, thorough=600000),
    "V07": dict(quick=20000, thorough=1000000),
    "V08": dict(quick=20000, thorough=1000000),
    "V09": dict(quick=20000, thorough=1000000),
    "V10": dict(quick=20000, thorough=1000000),
    "T01": dict(quick=4000, thorough=200000, objs=["model", "graph"]),
    "T02": dict(quick=20000, thorough=1000000),
    "T03": dict(quick=4000, thorough=200000),
    "T05": dict(quick=20000, thorough=1000000),
    "T04": dict(quick=8000, thorough=400000),
    "R02": dict(quick=3000, thorough=200000, objs=["model", "graph"]),
    "R03": dict(quick=3000, thorough=200000, objs=["model", "graph"]),
    "R04": dict(quick=3000, thorough=200000, objs=["model", "graph"]),
    "R01": dict(quick=6000, thorough=200000),
    "R05": dict(quick=4000, thorough=200000, objs=["model", "graph"]),
    "R06": dict(quick=1000, thorough=100000, objs=["model", "graph"]),
    "R07": dict(quick=6000, thorough=300000, objs=["model", "graph"]),
    "I01": dict(quick=2000, xml=True, cflags="-I/usr/include/libxml2", thorough=200000, objs=["model", "graph"]),
    "I02": dict(quick=8000, xml=True, cflags="-I/usr/include/libxml2", thorough=400000, objs=["model", "graph"], max_alloc_mb=512),
    "I03": dict(quick=4000, thorough=200000, objs=["model", "graph"]),
    "I04": dict(quick=6000, thorough=400000, objs=["model", "graph"]),
    "P01": dict(quick=8000, thorough=400000, objs=[], so=["stubplugin"]),
    "P02": dict(quick=700, thorough=20000, objs=["model", "graph"], flavor="tsan", workers=4, stall=60, blocking=True),
    "P03": dict(quick=3000, thorough=400000, objs=[]),
    "B01": dict(quick=3000, thorough=150000, ruby=True, flavor="ruby"),
    "B02": dict(quick=3000, thorough=150000, ruby=True, flavor="ruby"),
    "B03": dict(quick=1000, thorough=20000, ruby=True, flavor="ruby"),
    "B04": dict(quick=2500, thorough=100000, ruby=True, flavor="ruby"),
    "B05": dict(quick=4000, thorough=50000, ruby=True, flavor="ruby"),
    "B06": dict(quick=8000, thorough=50000, ruby=True, flavor="ruby"),
    "B07": dict(quick=3000, thorough=100000, ruby=True, flavor="ruby"),
    "B08": dict(quick=6000, thorough=60000, ruby=True, flavor="ruby"),
    "B09": dict(quick=6000, thorough=100000, ruby=True, flavor="ruby"),
    "B10": dict(quick=1500, thorough=40000, ruby=True, flavor="ruby", blocking=True),
    "B11": dict(quick=4000, thorough=60000, ruby=True, flavor="ruby"),
    "B12": dict(quick=1500, thorough=30000, ruby=True, flavor="ruby"),
    "T06": dict(quick=1500, thorough=60000, objs=["model", "graph"]),
    "T07": dict(quick=2000, thorough=200000, objs=["model", "graph"]),
    "B13": dict(quick=1500, thorough=60000, ruby=True, flavor="ruby"),
    "B14": dict(quick=4000, thorough=60000, ruby=True, flavor="ruby"),
    "B15": dict(quick=4500, thorough=60000, ruby=True, flavor="ruby"),
}
