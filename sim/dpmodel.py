"""A stand-in for a trained force field: records what it is given and answers with numbers
that identify the weights it was saved with."""
import io

import numpy as np
import torch

SEEN = []


def answer(w, n):
    """(total energy, atomic energies, forces, virial) of the model with weight w for n atoms."""
    k = np.arange(1, n + 1, dtype=float)
    return (np.array([w * n]), w + k, np.concatenate([w * k[:, None] + np.array([.1, .2, .3])]), w + np.arange(9.0).reshape(3, 3) ** 2)


class Model(torch.nn.Module):
    def __init__(self, w):
        super().__init__()
        self.w = torch.nn.Parameter(torch.tensor(float(w), dtype=torch.float64))
        self.more = torch.nn.Linear(24, 24)                   # so that the file has some length

    def forward(self, rc, r, rd, neigh, natoms):
        SEEN.append({"w": float(self.w), "training": self.training,
                     **{k: np.array(torch.as_tensor(v).detach().numpy()) for k, v in (("rc", rc), ("r", r), ("rd", rd), ("neigh", neigh), ("natoms", natoms))}})
        n = r.shape[1]
        e, ea, f, v = (torch.from_numpy(x) for x in answer(0.0, n))
        k = torch.arange(1, n + 1, dtype=torch.float64)
        return (e + self.w * n).reshape(1, 1), (ea + self.w).reshape(1, n, 1), (f + self.w * k[:, None]).reshape(1, n, 3), (v + self.w).reshape(1, 9)


def saved(w):
    b = io.BytesIO()
    torch.manual_seed(0)
    torch.save(Model(w), b)
    return b.getvalue()
