class Job:
    def __init__(self, dim, cfg, P, first, count, delay=0, eager=0):
        self.dim, self.cfg, self.P, self.first, self.count, self.delay, self.eager = dim, cfg, P, first, count, delay, eager
    def key(self):
        return f"{self.dim}D-{self.cfg}-P{self.P}-d{self.delay}"
