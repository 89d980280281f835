"""What all worlds share: choosing random actions, and saving and restoring the files of the project."""
import os


class Base:
    def choose(self, rng, length):
        pool = self.fx['pool']
        ws = [w for w, _ in pool]
        n = tries = 0
        while n < length and tries < 50 * length:
            tries += 1
            a = rng.choice(rng.choices(pool, ws)[0][1])
            if self.enabled(a):
                n += 1
                yield a

    # ---------------------------------------------------------------- files
    def snapshot(self):
        out = {}
        for r, ds, fs in os.walk(self.root):
            for d in ds:
                out[os.path.join(r, d)] = None
            for f in fs:
                p = os.path.join(r, f)
                with open(p, 'rb') as fh:
                    out[p] = fh.read()
        return out

    def restore(self, snap):
        seen = set()
        for r, ds, fs in os.walk(self.root, topdown=False):
            for d in ds:
                p = os.path.join(r, d)
                if p not in snap:
                    os.rmdir(p)
            for f in fs:
                p = os.path.join(r, f)
                seen.add(p)
                if p not in snap:
                    os.remove(p)
                else:
                    with open(p, 'rb') as fh:
                        if fh.read() == snap[p]:
                            continue
                    with open(p, 'wb') as fh:
                        fh.write(snap[p])
        for p in [p for p, x in snap.items() if x is None]:
            os.makedirs(p, exist_ok=True)
        for p in [p for p, x in snap.items() if x is not None and p not in seen]:
            os.makedirs(os.path.dirname(p), exist_ok=True)
            with open(p, 'wb') as fh:
                fh.write(snap[p])
