"""Reference model of the laser guide star kernels: the image of the sodium column, lens by lens."""
import itertools
import math

import numpy as np

ASEC = math.pi / 180 / 3600


def kernels(n, diam, ps, dim, launcher, spot, zfocus, heights, profile, theta=(0., 0.), ovs=1,
            positive=True):
    """[lens row * n + lens column] -> normalised image (dim x dim pixels of ps arcsec)."""
    heights = [float(h) for h in heights]
    profile = [float(p) for p in profile]
    if zfocus == -1:
        zfocus = sum(h * p for h, p in zip(heights, profile)) / sum(profile)
    px = np.linspace(-dim * ps / 2, dim * ps / 2, dim * ovs)[::ovs] * ASEC * zfocus
    half = 0.5 * ps * (1 if positive else -1)
    b = [(theta[0] + half) * ASEC * zfocus, (theta[1] + half) * ASEC * zfocus]
    sigma = spot * ASEC * zfocus / math.sqrt(8 * math.log(2))
    lens = np.linspace(-diam / 2, diam / 2, n) if n > 1 else np.zeros(1)
    out = np.zeros((n * n, dim, dim))
    for row, col in itertools.product(range(n), repeat=2):
        for h, p in zip(heights, profile):
            d = h - zfocus
            if p <= 0:
                continue
            # where the laser beam is at that height, and where the pixels look
            x0 = b[0] + d * (b[0] - launcher[0]) / (zfocus - launcher[2])
            y0 = b[1] + d * (b[1] - launcher[1]) / (zfocus - launcher[2])
            x = px + d * (px - lens[col]) / zfocus
            y = px + d * (px - lens[row]) / zfocus
            r2 = (x[None, :] - x0) ** 2 + (y[:, None] - y0) ** 2
            out[row * n + col] += p * np.exp(-r2 / (2 * sigma ** 2))
        s = out[row * n + col].sum()
        if s > 0:
            out[row * n + col] /= s
    return out


def convolve(image, kernel):
    """Circular convolution; the centre of the kernel is its pixel dim/2."""
    m = len(image)
    k = np.roll(kernel, (-(m // 2), -(m // 2)), axis=(0, 1))
    return np.fft.ifft2(np.fft.fft2(image) * np.fft.fft2(k)).real


def turned(ker, sense):
    """Kernels with both axes reversed about the central pixel."""
    if sense == 1:
        return ker
    return np.roll(ker[:, ::-1, ::-1], (1, 1), axis=(1, 2))
