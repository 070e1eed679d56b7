from locks import Locks


def run(w, res):
    L = Locks(w)
    for r in L.reports:
        res.add(*r)
    for f in L.over:
        raise RuntimeError("path budget exceeded in " + f)
    res.count("functions", L.nfn, 700)
    res.count("lock_sites_visits", L.nacq, 150)
    res.count("unlock_sites_visits", L.nrel, 150)
    res.count("exit_states", L.nexit, 700)
    res.count("recursive_mutexes", len(L.recursive))
    res.rule("C01.exit: the same lock effect on every exit of a function; C01.root: functions entered from outside (API, thread, callback) have none; "
             "C01.unheld: no unlock of a mutex that is not held; C01.relock: no lock of a non-recursive mutex already held, through calls too; C01.wait: condition waits hold their mutex")
    res.assume("mutexes reached through distinct access paths of different type.field are distinct objects")
