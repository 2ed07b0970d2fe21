From cdf5a6fe343808822479345605da9ab315b1193a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:38 +0000
Subject: [PATCH 001/225] fix: limiting the amplitude of a signal does not
 change the array passed

---
 dsptoolbox/classes/signal.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dsptoolbox/classes/signal.py b/dsptoolbox/classes/signal.py
index 652e0d3..a54c9d7 100644
--- a/dsptoolbox/classes/signal.py
+++ b/dsptoolbox/classes/signal.py
@@ -279,14 +279,14 @@ class Signal(MultichannelData):
             if new_time_data_imag is not None:
                 time_data_max = max(time_data_max, np.max(np.abs(new_time_data_imag)))
             if time_data_max > 1.0:
-                new_time_data /= time_data_max
+                new_time_data = new_time_data / time_data_max
                 warn(
                     "Signal was over 0 dBFS, normalizing to 0 dBFS "
                     + "peak level was triggered"
                 )
                 # Imaginary part is also scaled by same factor as real part
                 if new_time_data_imag is not None:
-                    new_time_data_imag /= time_data_max
+                    new_time_data_imag = new_time_data_imag / time_data_max
                 self.__amplitude_scale_factor = 1.0 / time_data_max
             else:
                 self.__amplitude_scale_factor = 1.0
-- 
2.43.0


From 71b2de94c29a71079183641316e64c20fedc86c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:38 +0000
Subject: [PATCH 002/225] fix: adding a channel keeps the imaginary part of the
 signal

---
 dsptoolbox/classes/signal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dsptoolbox/classes/signal.py b/dsptoolbox/classes/signal.py
index a54c9d7..77d2bb7 100644
--- a/dsptoolbox/classes/signal.py
+++ b/dsptoolbox/classes/signal.py
@@ -847,7 +847,7 @@ class Signal(MultichannelData):
                     + f"{self.time_data.shape[0]}. Activate allow_padding_trimming "
                     + "for allowing this channel to be added"
                 )
-        self.time_data = np.concatenate([self.time_data, new_time_data], axis=1)
+        self.time_data = np.concatenate([self._get_data(), new_time_data], axis=1)
         self.__update_state()
         return self
 
-- 
2.43.0


From 34bad22dd0c3e6182297a6344d4b1c19e8271aef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:38 +0000
Subject: [PATCH 003/225] fix: activating the amplitude limit keeps the
 imaginary part

---
 dsptoolbox/classes/signal.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/dsptoolbox/classes/signal.py b/dsptoolbox/classes/signal.py
index 77d2bb7..e36336d 100644
--- a/dsptoolbox/classes/signal.py
+++ b/dsptoolbox/classes/signal.py
@@ -452,8 +452,7 @@ class Signal(MultichannelData):
         self.__constrain_amplitude = nca
         # Restart time data setter for triggering normalization if needed
         if nca and hasattr(self, "time_data"):
-            ntd = self.time_data
-            self.time_data = ntd
+            self.time_data = self._get_data()
 
     @property
     def calibrated_signal(self) -> bool:
-- 
2.43.0


From c0dcd0a8b9d930dd25982438973bf69d33cd6b42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:38 +0000
Subject: [PATCH 004/225] fix: impulse response created from a signal does not
 share its data

---
 dsptoolbox/classes/impulse_response.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/dsptoolbox/classes/impulse_response.py b/dsptoolbox/classes/impulse_response.py
index e1c6913..2f2493d 100644
--- a/dsptoolbox/classes/impulse_response.py
+++ b/dsptoolbox/classes/impulse_response.py
@@ -80,12 +80,13 @@ class ImpulseResponse(Signal):
         """
         ir = ImpulseResponse(
             None,
-            signal.time_data,
+            signal.time_data.copy(),
             signal.sampling_rate_hz,
             signal.constrain_amplitude,
         )
         ir.calibrated_signal = signal.calibrated_signal
-        ir.time_data_imaginary = signal.time_data_imaginary
+        if signal.is_complex_signal:
+            ir.time_data_imaginary = signal.time_data_imaginary.copy()
         return ir
 
     @staticmethod
-- 
2.43.0


From 84f6d7faf360ff3face85c49fb668f44beb8a5d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:38 +0000
Subject: [PATCH 005/225] fix: impulse response from time data reports its
 amplitude scale factor

---
 dsptoolbox/classes/impulse_response.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/dsptoolbox/classes/impulse_response.py b/dsptoolbox/classes/impulse_response.py
index 2f2493d..448bd36 100644
--- a/dsptoolbox/classes/impulse_response.py
+++ b/dsptoolbox/classes/impulse_response.py
@@ -134,8 +134,7 @@ class ImpulseResponse(Signal):
         ImpulseResponse
 
         """
-        s = Signal.from_time_data(time_data, sampling_rate_hz, constrain_amplitude)
-        return ImpulseResponse.from_signal(s)
+        return ImpulseResponse(None, time_data, sampling_rate_hz, constrain_amplitude)
 
     def set_window(self, window: NDArray[np.float64]):
         """Sets the window used for the IR.
-- 
2.43.0


From 7961a37c733bd46974fcd296cb9daae73909466b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:50 +0000
Subject: [PATCH 006/225] fix: changing the spectrum smoothing invalidates
 cached spectra

---
 dsptoolbox/classes/signal.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dsptoolbox/classes/signal.py b/dsptoolbox/classes/signal.py
index e36336d..f4cd772 100644
--- a/dsptoolbox/classes/signal.py
+++ b/dsptoolbox/classes/signal.py
@@ -701,6 +701,8 @@ class Signal(MultichannelData):
         """
         assert new_smoothing >= 0.0, "Smoothing must be positive or zero"
         self._spectrum_parameters["smoothing"] = float(new_smoothing)
+        self.__spectrum_state_update = True
+        self.__csm_state_update = True
 
     def set_spectrogram_parameters(
         self,
-- 
2.43.0


From 412f96b1d532c97a8954204d5811254d8adf9eeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:50 +0000
Subject: [PATCH 007/225] fix: plots do not leave their own spectrum in the
 cache of a signal

---
 dsptoolbox/classes/signal.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/dsptoolbox/classes/signal.py b/dsptoolbox/classes/signal.py
index f4cd772..d3096c1 100644
--- a/dsptoolbox/classes/signal.py
+++ b/dsptoolbox/classes/signal.py
@@ -1104,12 +1104,12 @@ class Signal(MultichannelData):
         """
         # Handle smoothing
         prior_smoothing = self._spectrum_parameters["smoothing"]
-        self._spectrum_parameters["smoothing"] = 0
+        self.spectrum_smoothing = 0
 
         # Get spectrum
         f, sp = self.get_spectrum()
 
-        self._spectrum_parameters["smoothing"] = prior_smoothing
+        self.spectrum_smoothing = prior_smoothing
 
         f, mag_db = _get_normalized_spectrum(
             f=f,
@@ -1339,7 +1339,7 @@ class Signal(MultichannelData):
             smoothing=0,
         )
         f, sp = self.get_spectrum()
-        self._spectrum_parameters = prior_spectrum_parameters
+        self.set_spectrum_parameters(**prior_spectrum_parameters)
 
         ph = np.angle(sp)
 
@@ -1495,13 +1495,13 @@ class Signal(MultichannelData):
         ), "Phase cannot be plotted since the spectrum is welch."
 
         prior_smoothing = self._spectrum_parameters["smoothing"]
-        self._spectrum_parameters["smoothing"] = 0
+        self.spectrum_smoothing = 0
 
         # Get spectrum
         f, sp = self.get_spectrum()
         ph = np.angle(sp)
 
-        self._spectrum_parameters["smoothing"] = prior_smoothing
+        self.spectrum_smoothing = prior_smoothing
 
         if remove_ir_latency is None:
             pass
-- 
2.43.0


From 9db9808214fe30318f43abf3e8f26a97f1361b84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:50 +0000
Subject: [PATCH 008/225] fix: a spectrogram cached before deactivating the
 cache is not returned for new data

---
 dsptoolbox/classes/signal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dsptoolbox/classes/signal.py b/dsptoolbox/classes/signal.py
index d3096c1..07e55d7 100644
--- a/dsptoolbox/classes/signal.py
+++ b/dsptoolbox/classes/signal.py
@@ -1045,9 +1045,9 @@ class Signal(MultichannelData):
                 self._spectrogram_parameters["padding"],
                 self._spectrogram_parameters["scaling"],
             )
-            self.__spectrogram_state_update = False
             if self.activate_cache:
                 self.spectrogram = deepcopy(spectrogram)
+                self.__spectrogram_state_update = False
             return spectrogram[0], spectrogram[1], spectrogram[2]
 
         return (
-- 
2.43.0


From e7abdc5d770fde748c186b317a1f66b5387db716 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:50 +0000
Subject: [PATCH 009/225] fix: setting or clearing the window of an impulse
 response invalidates cached spectra

---
 dsptoolbox/classes/impulse_response.py | 1 +
 dsptoolbox/classes/signal.py           | 1 +
 2 files changed, 2 insertions(+)

diff --git a/dsptoolbox/classes/impulse_response.py b/dsptoolbox/classes/impulse_response.py
index 448bd36..15c98df 100644
--- a/dsptoolbox/classes/impulse_response.py
+++ b/dsptoolbox/classes/impulse_response.py
@@ -149,6 +149,7 @@ class ImpulseResponse(Signal):
             window.shape == self.time_data.shape
         ), f"{window.shape} does not match shape {self.time_data.shape}"
         self.window = window
+        self._update_state()
         return self
 
     def plot_time(self) -> tuple[Figure, list[Axes]]:
diff --git a/dsptoolbox/classes/signal.py b/dsptoolbox/classes/signal.py
index 07e55d7..edc126e 100644
--- a/dsptoolbox/classes/signal.py
+++ b/dsptoolbox/classes/signal.py
@@ -856,6 +856,7 @@ class Signal(MultichannelData):
         """Deletes the time window of the signal in case there is any."""
         if hasattr(self, "window"):
             del self.window
+            self.__update_state()
         return self
 
     # ======== Getters ========================================================
-- 
2.43.0


From 56f3fc5e08aa8e2d80ab7839148261c50fe9fcfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:08 +0000
Subject: [PATCH 010/225] fix: scaling of the FFT-based cross-spectral matrix

---
 dsptoolbox/classes/signal.py             |  5 ++++
 dsptoolbox/standard/_spectral_methods.py | 29 ++++++++++++++++--------
 2 files changed, 25 insertions(+), 9 deletions(-)

diff --git a/dsptoolbox/classes/signal.py b/dsptoolbox/classes/signal.py
index edc126e..c76cd24 100644
--- a/dsptoolbox/classes/signal.py
+++ b/dsptoolbox/classes/signal.py
@@ -1000,6 +1000,11 @@ class Signal(MultichannelData):
                     old_scaling,
                     self.window if hasattr(self, "window") else None,
                     self.sampling_rate_hz,
+                    (
+                        next_fast_len(self.length_samples, True)
+                        if self._spectrum_parameters["pad_to_fast_length"]
+                        else self.length_samples
+                    ),
                 )
                 self.spectrum_scaling = old_scaling
             if self.activate_cache:
diff --git a/dsptoolbox/standard/_spectral_methods.py b/dsptoolbox/standard/_spectral_methods.py
index 0147016..6d6d163 100644
--- a/dsptoolbox/standard/_spectral_methods.py
+++ b/dsptoolbox/standard/_spectral_methods.py
@@ -376,6 +376,7 @@ def _csm_fft(
     scaling: SpectrumScaling,
     window: NDArray[np.float64] | None,
     sampling_rate_hz: int,
+    fft_length_samples: int,
 ) -> np.complex128:
     """Compute the cross-spectral matrix from a multichannel complex spectrum.
     It is assumed that the input spectrum has no scaling, i.e., FFTBackward
@@ -391,6 +392,8 @@ def _csm_fft(
         Time window if it has been applied.
     sampling_rate_hz : int
         Sampling rate.
+    fft_length_samples : int
+        Length of the FFT with which the spectrum was obtained.
 
     Returns
     -------
@@ -429,15 +432,23 @@ def _csm_fft(
     if scaling == SpectrumScaling.FFTBackward:
         return csm
 
-    # Fix DC and Nyquist because one-sided
-    csm[np.array([0, -1]), ...] /= 2.0
+    # Linear factor for each channel
+    factor = np.atleast_1d(
+        scaling.get_scaling_factor(fft_length_samples, sampling_rate_hz, window)
+    ).squeeze()
+    if not scaling.is_amplitude_scaling():
+        factor = factor**0.5
+    factor = np.broadcast_to(factor, (number_of_channels,))
+    csm *= factor[:, None] * factor[None, :]
+    if not scaling.has_physical_units():
+        return csm
+
+    # One-sided spectrum: no doubling of DC and Nyquist
+    csm[0, ...] /= 2.0
+    if fft_length_samples % 2 == 0:
+        csm[-1, ...] /= 2.0
 
-    # Conversion
-    factor = SpectrumScaling.FFTBackward.conversion_factor(
-        scaling, spectrum.shape[0] // 2 + 1, sampling_rate_hz, window
-    )[:, None]
-    factor = np.repeat(factor, number_of_channels, axis=-1)
-    csm *= factor[None, ...]
     if scaling.is_amplitude_scaling():
-        csm = np.sqrt(csm)
+        csm = np.tril(np.sqrt(csm))
+        csm += np.tril(csm, -1).swapaxes(1, 2).conjugate()
     return csm
-- 
2.43.0


From f2d0606ab2bca7d690f7ea076e8469afc9e7a569 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:08 +0000
Subject: [PATCH 011/225] fix: bias of the median average in Welch's method

---
 dsptoolbox/standard/_spectral_methods.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dsptoolbox/standard/_spectral_methods.py b/dsptoolbox/standard/_spectral_methods.py
index 6d6d163..e2a7e9f 100644
--- a/dsptoolbox/standard/_spectral_methods.py
+++ b/dsptoolbox/standard/_spectral_methods.py
@@ -158,7 +158,8 @@ def _welch(
             if sp_frames.shape[1] % 2 == 1
             else sp_frames.shape[1] - 1
         )
-        bias = np.sum((-1) ** (n + 1) / n)
+        n = np.arange(1, n + 1)
+        bias = np.sum((-1.0) ** (n + 1) / n)
         csd /= bias
 
     # Weightning (with 2 because one-sided)
-- 
2.43.0


From 47cb12a24833a6795be2707fdc11ddbc68d19e95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:08 +0000
Subject: [PATCH 012/225] fix: Welch's method with a single frame and a single
 channel

---
 dsptoolbox/standard/_spectral_methods.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dsptoolbox/standard/_spectral_methods.py b/dsptoolbox/standard/_spectral_methods.py
index e2a7e9f..131f77c 100644
--- a/dsptoolbox/standard/_spectral_methods.py
+++ b/dsptoolbox/standard/_spectral_methods.py
@@ -128,9 +128,9 @@ def _welch(
         y_frames *= window[:, np.newaxis, np.newaxis]
 
     if not multi_channel:
-        x_frames = np.squeeze(x_frames)
+        x_frames = np.squeeze(x_frames, axis=-1)
         if not autospectrum:
-            y_frames = np.squeeze(y_frames)
+            y_frames = np.squeeze(y_frames, axis=-1)
 
     # Detrend
     if detrend:
-- 
2.43.0


From e8e9069d3a71758470a8e76e5f9a934d100a4091 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:08 +0000
Subject: [PATCH 013/225] fix: frequency vector of the spectrogram for a given
 FFT length

---
 dsptoolbox/standard/_spectral_methods.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dsptoolbox/standard/_spectral_methods.py b/dsptoolbox/standard/_spectral_methods.py
index 131f77c..8a2e3c4 100644
--- a/dsptoolbox/standard/_spectral_methods.py
+++ b/dsptoolbox/standard/_spectral_methods.py
@@ -279,7 +279,7 @@ def _stft(
         stft *= factor
 
     time_s = np.linspace(0, len(x) / fs_hz, stft.shape[1])
-    freqs_hz = np.fft.rfftfreq(len(window), 1 / fs_hz)
+    freqs_hz = np.fft.rfftfreq(fft_length_samples, 1 / fs_hz)
     return time_s, freqs_hz, stft
 
 
-- 
2.43.0


From 7255585725db420cb7b1af7c303065c948494bb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:08 +0000
Subject: [PATCH 014/225] fix: time vector of the spectrogram gives the center
 of each frame

---
 dsptoolbox/standard/_spectral_methods.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/dsptoolbox/standard/_spectral_methods.py b/dsptoolbox/standard/_spectral_methods.py
index 8a2e3c4..75c6057 100644
--- a/dsptoolbox/standard/_spectral_methods.py
+++ b/dsptoolbox/standard/_spectral_methods.py
@@ -278,7 +278,11 @@ def _stft(
             stft = np.abs(stft) ** 2.0
         stft *= factor
 
-    time_s = np.linspace(0, len(x) / fs_hz, stft.shape[1])
+    # Center of each frame in the original signal
+    time_s = np.arange(stft.shape[1]) * step + window_length_samples / 2
+    if padding:
+        time_s -= overlap_samples
+    time_s = time_s / fs_hz
     freqs_hz = np.fft.rfftfreq(fft_length_samples, 1 / fs_hz)
     return time_s, freqs_hz, stft
 
-- 
2.43.0


From b802a29204f79df780fe85c35e871492ad07ed46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:28 +0000
Subject: [PATCH 015/225] fix: segments are detrended before applying the
 window

---
 dsptoolbox/standard/_spectral_methods.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/dsptoolbox/standard/_spectral_methods.py b/dsptoolbox/standard/_spectral_methods.py
index 75c6057..614e9e5 100644
--- a/dsptoolbox/standard/_spectral_methods.py
+++ b/dsptoolbox/standard/_spectral_methods.py
@@ -122,6 +122,12 @@ def _welch(
     if not autospectrum:
         y_frames = _get_framed_signal(y, window_length_samples, step)
 
+    # Detrend
+    if detrend:
+        x_frames -= np.mean(x_frames, axis=0)
+        if not autospectrum:
+            y_frames -= np.mean(y_frames, axis=0)
+
     # Window
     x_frames *= window[:, np.newaxis, np.newaxis]
     if not autospectrum:
@@ -132,12 +138,6 @@ def _welch(
         if not autospectrum:
             y_frames = np.squeeze(y_frames, axis=-1)
 
-    # Detrend
-    if detrend:
-        x_frames -= np.mean(x_frames, axis=0)
-        if not autospectrum:
-            y_frames -= np.mean(y_frames, axis=0)
-
     if not autospectrum:
         sp_frames = np.fft.rfft(
             x_frames, axis=0, norm=scaling.fft_norm()
@@ -260,11 +260,11 @@ def _stft(
         x = np.pad(x, ((overlap_samples, overlap_samples), (0, 0)))
     # Framed signal
     time_x = _get_framed_signal(x, window_length_samples, step, True)
-    # Windowing
-    time_x *= window[..., np.newaxis, np.newaxis]
     # Detrend
     if detrend:
         time_x -= np.mean(time_x, axis=0)
+    # Windowing
+    time_x *= window[..., np.newaxis, np.newaxis]
     # Spectra
     stft = np.fft.rfft(time_x, axis=0, n=fft_length_samples, norm=scaling.fft_norm())
 
-- 
2.43.0


From 65bd374778f0f333bfd81b2107b352f85458dddf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:28 +0000
Subject: [PATCH 016/225] fix: autospectrum with the median average is real

---
 dsptoolbox/standard/_spectral_methods.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dsptoolbox/standard/_spectral_methods.py b/dsptoolbox/standard/_spectral_methods.py
index 614e9e5..ab6352b 100644
--- a/dsptoolbox/standard/_spectral_methods.py
+++ b/dsptoolbox/standard/_spectral_methods.py
@@ -151,7 +151,9 @@ def _welch(
     if average == "mean":
         csd = np.mean(sp_frames, axis=1)
     else:
-        csd = np.median(sp_frames.real, axis=1) + 1j * np.median(sp_frames.imag, axis=1)
+        csd = np.median(sp_frames.real, axis=1)
+        if not autospectrum:
+            csd = csd + 1j * np.median(sp_frames.imag, axis=1)
         # Bias according to reference
         n = (
             sp_frames.shape[1]
-- 
2.43.0


From 3e975ba1015afdc0126505a1453834166de3cb31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:28 +0000
Subject: [PATCH 017/225] fix: scaling of zero-padded spectra uses the length
 of the signal

---
 dsptoolbox/classes/signal.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/dsptoolbox/classes/signal.py b/dsptoolbox/classes/signal.py
index c76cd24..df7d377 100644
--- a/dsptoolbox/classes/signal.py
+++ b/dsptoolbox/classes/signal.py
@@ -936,7 +936,11 @@ class Signal(MultichannelData):
                         self.spectrum_scaling,
                         fft_length,
                         self.sampling_rate_hz,
-                        None if not hasattr(self, "window") else self.window,
+                        (
+                            np.ones(self.length_samples)
+                            if not hasattr(self, "window")
+                            else self.window
+                        ),
                     )
 
             freqs = np.fft.rfftfreq(fft_length, 1 / self.sampling_rate_hz)
@@ -998,7 +1002,12 @@ class Signal(MultichannelData):
                 csm = _csm_fft(
                     sp,
                     old_scaling,
-                    self.window if hasattr(self, "window") else None,
+                    (
+                        self.window
+                        if hasattr(self, "window")
+                        or not old_scaling.has_physical_units()
+                        else np.ones((self.length_samples, self.number_of_channels))
+                    ),
                     self.sampling_rate_hz,
                     (
                         next_fast_len(self.length_samples, True)
-- 
2.43.0


From bcafe26ae324a414337e42a5ada528e9c0ca2efc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:28 +0000
Subject: [PATCH 018/225] fix: reconstructing a framed signal does not change
 the frames passed

---
 dsptoolbox/standard/_framed_signal_representation.py | 7 ++-----
 dsptoolbox/standard/_standard_backend.py             | 2 +-
 2 files changed, 3 insertions(+), 6 deletions(-)

diff --git a/dsptoolbox/standard/_framed_signal_representation.py b/dsptoolbox/standard/_framed_signal_representation.py
index 0d724d6..ae24f28 100644
--- a/dsptoolbox/standard/_framed_signal_representation.py
+++ b/dsptoolbox/standard/_framed_signal_representation.py
@@ -110,12 +110,9 @@ def _reconstruct_framed_signal(
             assert (
                 window.shape[0] == td_framed.shape[0]
             ), "Window length does not match signal length"
-        td_framed *= window[:, np.newaxis, np.newaxis]
+        td_framed = td_framed * window[:, np.newaxis, np.newaxis]
 
-    total_length = int(
-        step_size * td_framed.shape[1]
-        + td_framed.shape[0] * (1 - step_size / td_framed.shape[0])
-    )
+    total_length = step_size * (td_framed.shape[1] - 1) + td_framed.shape[0]
     td = np.zeros((total_length, td_framed.shape[-1]))
 
     start = 0
diff --git a/dsptoolbox/standard/_standard_backend.py b/dsptoolbox/standard/_standard_backend.py
index bc5d875..837b65b 100644
--- a/dsptoolbox/standard/_standard_backend.py
+++ b/dsptoolbox/standard/_standard_backend.py
@@ -417,7 +417,7 @@ def _get_window_envelope(
 
     """
     if squared:
-        window **= 2
+        window = window**2
     envelope = np.zeros(total_length_samples)
 
     start = 0
-- 
2.43.0


From ff036749ba964a97a1017db59888e666149cebab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:28 +0000
Subject: [PATCH 019/225] fix: inverse STFT uses the scaling and the frames of
 the forward transform

---
 dsptoolbox/transforms/transforms.py | 35 ++++++++++++++++++++---------
 1 file changed, 25 insertions(+), 10 deletions(-)

diff --git a/dsptoolbox/transforms/transforms.py b/dsptoolbox/transforms/transforms.py
index 2ca9f99..d1ce64d 100644
--- a/dsptoolbox/transforms/transforms.py
+++ b/dsptoolbox/transforms/transforms.py
@@ -545,30 +545,45 @@ def istft(
             "scaling": scaling,
         }
 
+    if original_signal is not None:
+        sampling_rate_hz = original_signal.sampling_rate_hz
+
     window = get_window(
         parameters["window_type"].to_scipy_format(),
         parameters["window_length_samples"],
     )
+    fft_length = parameters["fft_length_samples"]
+    if fft_length is None:
+        fft_length = len(window)
+
+    if parameters["scaling"].has_physical_units():
+        assert parameters[
+            "scaling"
+        ].is_amplitude_scaling(), "A power scaling has no phase, it cannot be inverted"
+        stft = stft / parameters["scaling"].get_scaling_factor(
+            fft_length, sampling_rate_hz, window
+        )
+        # One-sided spectrum: DC and Nyquist
+        stft[0, ...] *= 2**0.5
+        if fft_length % 2 == 0:
+            stft[-1, ...] *= 2**0.5
 
     td_framed = np.fft.irfft(
         stft,
         axis=0,
-        n=parameters["fft_length_samples"],
+        n=fft_length,
         norm=parameters["scaling"].fft_norm(),
     )
-    td_framed = td_framed[: parameters["window_length_samples"], ...]
-    if parameters["scaling"].has_physical_units():
-        td_framed /= parameters["scaling"].get_scaling_factor(
-            parameters["fft_length_samples"], sampling_rate_hz, window
-        )
+    td_framed = td_framed[: len(window), ...]
 
-    # Reconstruct from framed representation to continuous
-    step = int((1 - parameters["overlap_percent"] / 100) * len(window))
+    # Reconstruct from framed representation to continuous (as in the forward
+    # transform)
+    overlap = int(parameters["overlap_percent"] / 100 * len(window) + 0.5)
+    step = len(window) - overlap
 
     if parameters["padding"]:
         td = _reconstruct_framed_signal(td_framed, step_size=step, window=window)
-        overlap = int(parameters["overlap_percent"] / 100 * len(window))
-        td = td[overlap:-overlap, :]
+        td = td[overlap : td.shape[0] - overlap, :]
     else:
         extra_window = np.zeros_like(td_framed[:, 0, :])[:, np.newaxis, :]
         td_framed = np.append(extra_window, td_framed, axis=1)
-- 
2.43.0


From 7bb2b1ea4163fe60e2ac093bdfdc975f1f42f5a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:30 +0000
Subject: [PATCH 020/225] fix: cross-spectral matrix without window and without
 physical units

---
 dsptoolbox/classes/signal.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/dsptoolbox/classes/signal.py b/dsptoolbox/classes/signal.py
index df7d377..ab53be3 100644
--- a/dsptoolbox/classes/signal.py
+++ b/dsptoolbox/classes/signal.py
@@ -1005,7 +1005,6 @@ class Signal(MultichannelData):
                     (
                         self.window
                         if hasattr(self, "window")
-                        or not old_scaling.has_physical_units()
                         else np.ones((self.length_samples, self.number_of_channels))
                     ),
                     self.sampling_rate_hz,
-- 
2.43.0


From 4d8968c6ca96131255ad17c36b509184f0fdab4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:30 +0000
Subject: [PATCH 021/225] fix: amplitude scalings of Welch spectra

---
 dsptoolbox/standard/_spectral_methods.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dsptoolbox/standard/_spectral_methods.py b/dsptoolbox/standard/_spectral_methods.py
index ab6352b..43cba28 100644
--- a/dsptoolbox/standard/_spectral_methods.py
+++ b/dsptoolbox/standard/_spectral_methods.py
@@ -167,6 +167,8 @@ def _welch(
     # Weightning (with 2 because one-sided)
     if scaling.has_physical_units():
         factor = scaling.get_scaling_factor(window_length_samples, fs_hz, window)
+        if scaling.is_amplitude_scaling():
+            factor = factor**2.0
         csd *= factor
         csd[np.array([0, -1]), ...] /= 2
 
-- 
2.43.0


From 58cbae4476baeb933512236120b76336d4764cc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:30 +0000
Subject: [PATCH 022/225] fix: normalised spectra with power scalings

---
 dsptoolbox/helpers/spectrum_utilities.py | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/dsptoolbox/helpers/spectrum_utilities.py b/dsptoolbox/helpers/spectrum_utilities.py
index 37c9d91..4ea9873 100644
--- a/dsptoolbox/helpers/spectrum_utilities.py
+++ b/dsptoolbox/helpers/spectrum_utilities.py
@@ -153,16 +153,14 @@ def _get_normalized_spectrum(
     f = f[id1:id2]
 
     if smoothing != 0:
-        if is_amplitude_scaling:
-            mag_spectra = (
-                _fractional_octave_smoothing(mag_spectra, None, smoothing)
-                if is_amplitude_scaling
-                else (
-                    # Smoothing always in amplitude representation
-                    _fractional_octave_smoothing(mag_spectra**0.5, None, smoothing)
-                    ** 2
-                )
+        mag_spectra = (
+            _fractional_octave_smoothing(mag_spectra, None, smoothing)
+            if is_amplitude_scaling
+            else (
+                # Smoothing always in amplitude representation
+                _fractional_octave_smoothing(mag_spectra**0.5, None, smoothing) ** 2
             )
+        )
 
     mag_spectra_db = to_db(mag_spectra / scale_factor, is_amplitude_scaling, 500)
 
@@ -193,9 +191,12 @@ def _get_normalized_spectrum(
         case MagnitudeNormalization.EnergyFirstChannel:
             normalization_db = to_db(
                 np.mean(
-                    (mag_spectra[:, 0] ** 2.0 if is_amplitude_scaling else mag_spectra),
+                    (
+                        mag_spectra[:, :1] ** 2.0
+                        if is_amplitude_scaling
+                        else mag_spectra[:, :1]
+                    ),
                     axis=0,
-                    keepdims=True,
                 ),
                 False,
             )
-- 
2.43.0


From 0932583f57ede7fedb594b277b796c2c7e918acb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:30 +0000
Subject: [PATCH 023/225] fix: scaling a spectrum does not change the array
 passed

---
 dsptoolbox/helpers/spectrum_utilities.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dsptoolbox/helpers/spectrum_utilities.py b/dsptoolbox/helpers/spectrum_utilities.py
index 4ea9873..7f55b83 100644
--- a/dsptoolbox/helpers/spectrum_utilities.py
+++ b/dsptoolbox/helpers/spectrum_utilities.py
@@ -316,6 +316,7 @@ def _scale_spectrum(
     factor = scaling.get_scaling_factor(time_length_samples, sampling_rate_hz, window)
 
     # One-sided fix for DC and Nyquist (assuming input was linear)
+    spectrum = spectrum.copy()
     spectrum[0] /= 2**0.5
     if time_length_samples % 2 == 0:
         spectrum[-1] /= 2**0.5
-- 
2.43.0


From 4dcd69f932414eb319313f2638e6f72200f84580 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:39 +0000
Subject: [PATCH 024/225] fix: Welch spectrum of a single channel is a matrix
 like all others

---
 dsptoolbox/classes/signal.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dsptoolbox/classes/signal.py b/dsptoolbox/classes/signal.py
index ab53be3..fe8a383 100644
--- a/dsptoolbox/classes/signal.py
+++ b/dsptoolbox/classes/signal.py
@@ -897,6 +897,8 @@ class Signal(MultichannelData):
                     self._spectrum_parameters["average"],
                     self._spectrum_parameters["scaling"],
                 )
+                if spectrum.ndim == 1:
+                    spectrum = spectrum[..., None]
                 fft_length = self._spectrum_parameters["window_length_samples"]
             else:  # FFT
                 fft_length = (
-- 
2.43.0


From 4d54de3095a8038eba8a49aedd13e29188343b16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:07 +0000
Subject: [PATCH 025/225] fix: padding, trimming, fading and detrending keep
 the imaginary part

---
 dsptoolbox/standard/_standard_backend.py |  8 ++++++++
 dsptoolbox/standard/gain_and_level.py    |  6 ++++--
 dsptoolbox/standard/other.py             |  3 ++-
 dsptoolbox/standard/pad_trim_methods.py  | 21 +++++++++++----------
 4 files changed, 25 insertions(+), 13 deletions(-)

diff --git a/dsptoolbox/standard/_standard_backend.py b/dsptoolbox/standard/_standard_backend.py
index 837b65b..0e47c65 100644
--- a/dsptoolbox/standard/_standard_backend.py
+++ b/dsptoolbox/standard/_standard_backend.py
@@ -11,6 +11,14 @@ from ..helpers.spectrum_utilities import _wrap_phase
 from ..helpers.gain_and_level import from_db
 
 
+def _get_full_time_data(signal) -> NDArray[np.float64 | np.complex128]:
+    """Return a copy of the time data of a signal. It is complex if the signal
+    has an imaginary part."""
+    if signal.is_complex_signal:
+        return signal.time_data + 1j * signal.time_data_imaginary
+    return signal.time_data.copy()
+
+
 def _latency(
     in1: NDArray[np.float64],
     in2: NDArray[np.float64] | None,
diff --git a/dsptoolbox/standard/gain_and_level.py b/dsptoolbox/standard/gain_and_level.py
index f5a065d..5f75791 100644
--- a/dsptoolbox/standard/gain_and_level.py
+++ b/dsptoolbox/standard/gain_and_level.py
@@ -3,6 +3,7 @@ from numpy.typing import NDArray
 
 from ..classes import Signal, MultiBandSignal, FilterBank, Filter
 from ..helpers.gain_and_level import _fade, from_db, _normalize, _rms, to_db
+from ._standard_backend import _get_full_time_data
 from ._framed_signal_representation import _get_framed_signal
 from .resampling import resample
 from .enums import FadeType, BiquadEqType
@@ -96,9 +97,10 @@ def fade(
         length_fade_seconds < sig.time_vector_s[-1]
     ), "Fade length should not be longer than the signal itself"
 
-    new_time_data = np.empty_like(sig.time_data)
+    time_data = _get_full_time_data(sig)
+    new_time_data = np.empty_like(time_data)
     for n in range(sig.number_of_channels):
-        vec = sig.time_data[:, n].copy()
+        vec = time_data[:, n].copy()
         if at_start:
             new_time_data[:, n] = _fade(
                 vec,
diff --git a/dsptoolbox/standard/other.py b/dsptoolbox/standard/other.py
index c233078..f698961 100644
--- a/dsptoolbox/standard/other.py
+++ b/dsptoolbox/standard/other.py
@@ -18,6 +18,7 @@ from ..classes import (
 from ._standard_backend import (
     _indices_above_threshold_dbfs,
     _detrend,
+    _get_full_time_data,
 )
 from ..helpers.smoothing import _get_smoothing_factor_ema
 from ..helpers.other import _check_format_in_path
@@ -201,7 +202,7 @@ def detrend(
     if isinstance(sig, Signal):
         assert polynomial_order >= 0, "Polynomial order should be positive"
         return sig.copy_with_new_time_data(
-            _detrend(sig.time_data.copy(), polynomial_order)
+            _detrend(_get_full_time_data(sig), polynomial_order)
         )
     elif isinstance(sig, MultiBandSignal):
         detrended_sig = sig.copy()
diff --git a/dsptoolbox/standard/pad_trim_methods.py b/dsptoolbox/standard/pad_trim_methods.py
index 67fb840..66f15e8 100644
--- a/dsptoolbox/standard/pad_trim_methods.py
+++ b/dsptoolbox/standard/pad_trim_methods.py
@@ -2,6 +2,7 @@ import numpy as np
 
 from ..classes import Signal, MultiBandSignal
 from ..helpers.other import _pad_trim
+from ._standard_backend import _get_full_time_data
 from ..tools import from_db
 
 
@@ -30,13 +31,11 @@ def pad_trim(
 
     """
     if isinstance(signal, Signal):
-        new_time_data = np.zeros((desired_length_samples, signal.number_of_channels))
-        for n in range(signal.number_of_channels):
-            new_time_data[:, n] = _pad_trim(
-                signal.time_data[:, n],
-                desired_length_samples,
-                in_the_end=in_the_end,
-            )
+        new_time_data = _pad_trim(
+            _get_full_time_data(signal),
+            desired_length_samples,
+            in_the_end=in_the_end,
+        )
         return signal.copy_with_new_time_data(new_time_data)
     elif isinstance(signal, MultiBandSignal):
         assert (
@@ -101,7 +100,7 @@ def modify_signal_length(
             assert len(signal) > -(start_samples + end_samples), "Trimming is too much"
 
         new_sig = signal.copy()
-        td = new_sig.time_data
+        td = _get_full_time_data(new_sig)
         if start_samples >= 0:
             td = np.pad(td, ((start_samples, 0), (0, 0)))
         else:
@@ -172,7 +171,7 @@ def trim_with_level_threshold(
         stop = signal.length_samples
 
     return (
-        signal.copy_with_new_time_data(signal.time_data[start:stop]),
+        signal.copy_with_new_time_data(_get_full_time_data(signal)[start:stop]),
         start,
         stop,
     )
@@ -234,7 +233,9 @@ def trim_with_time_selection(
 
         assert end_sample > start_sample, "Invalid time window"
         selection = slice(start_sample, end_sample)
-        return signal.copy_with_new_time_data(signal.time_data[selection, ...])
+        return signal.copy_with_new_time_data(
+            _get_full_time_data(signal)[selection, ...]
+        )
     elif isinstance(signal, MultiBandSignal):
         output = signal.copy()
         for ind in range(signal.number_of_bands):
-- 
2.43.0


From 789fe0336925ba334aa3e88691f338ec0e6374db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:07 +0000
Subject: [PATCH 026/225] fix: applying a gain keeps the imaginary part

---
 dsptoolbox/standard/gain_and_level.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/dsptoolbox/standard/gain_and_level.py b/dsptoolbox/standard/gain_and_level.py
index 5f75791..1f6d0bb 100644
--- a/dsptoolbox/standard/gain_and_level.py
+++ b/dsptoolbox/standard/gain_and_level.py
@@ -325,10 +325,9 @@ def apply_gain(
         gain_linear = from_db(np.atleast_1d(gain_db), True)
         if len(gain_linear) == 1:
             gain_linear = gain_linear[0]
-        new_sig = target.copy_with_new_time_data(target.time_data * gain_linear)
-        if new_sig.is_complex_signal:
-            new_sig.time_data_imaginary *= gain_linear
-        return new_sig
+        return target.copy_with_new_time_data(
+            _get_full_time_data(target) * gain_linear
+        )
     elif isinstance(target, MultiBandSignal):
         new_mb = target.copy()
         for ind in range(new_mb.number_of_bands):
-- 
2.43.0


From 355ac28dc178351c1933c8ebef9d97e4d76fb385 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:07 +0000
Subject: [PATCH 027/225] fix: crest factor of multiband signals in dB

---
 dsptoolbox/standard/gain_and_level.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dsptoolbox/standard/gain_and_level.py b/dsptoolbox/standard/gain_and_level.py
index 1f6d0bb..7cc48f3 100644
--- a/dsptoolbox/standard/gain_and_level.py
+++ b/dsptoolbox/standard/gain_and_level.py
@@ -394,7 +394,7 @@ def crest_factor(
     elif isinstance(sig, MultiBandSignal):
         crest = np.zeros((sig.number_of_bands, sig.number_of_channels))
         for ind, b in enumerate(sig):
-            crest[ind, :] = crest_factor(b, in_db, use_true_peak)
+            crest[ind, :] = crest_factor(b, False, use_true_peak)
     else:
         raise TypeError(
             "Passed signal should be either a Signal or " + "MultiBandSignal type"
-- 
2.43.0


From 6dce46e8d9425fe954e8941d573ad917136541e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:07 +0000
Subject: [PATCH 028/225] fix: delaying and resampling keep the imaginary part

---
 dsptoolbox/standard/latency_delay.py | 8 ++++++--
 dsptoolbox/standard/resampling.py    | 3 ++-
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/dsptoolbox/standard/latency_delay.py b/dsptoolbox/standard/latency_delay.py
index 3919619..db61740 100644
--- a/dsptoolbox/standard/latency_delay.py
+++ b/dsptoolbox/standard/latency_delay.py
@@ -9,7 +9,11 @@ from ..helpers.latency import (
 )
 from ..helpers.other import _pad_trim
 from ..classes import Signal, MultiBandSignal
-from ._standard_backend import _latency, _fractional_delay_filter
+from ._standard_backend import (
+    _latency,
+    _fractional_delay_filter,
+    _get_full_time_data,
+)
 
 
 def latency(
@@ -330,7 +334,7 @@ def delay(
         ) == len(channels), "There is at least an invalid channel number"
 
         # Copy data
-        new_time_data = sig.time_data
+        new_time_data = _get_full_time_data(sig)
 
         # Handle delayed and undelayed channels
         channels_not = np.setdiff1d(channels, np.arange(new_time_data.shape[1]))
diff --git a/dsptoolbox/standard/resampling.py b/dsptoolbox/standard/resampling.py
index a096ea1..90b3b4d 100644
--- a/dsptoolbox/standard/resampling.py
+++ b/dsptoolbox/standard/resampling.py
@@ -4,6 +4,7 @@ from scipy.signal import resample_poly, bilinear_zpk
 from fractions import Fraction
 from ..classes import Signal, Filter
 from .enums import FilterCoefficientsType
+from ._standard_backend import _get_full_time_data
 
 
 def resample(
@@ -35,7 +36,7 @@ def resample(
         numerator=desired_sampling_rate_hz, denominator=sig.sampling_rate_hz
     )
     u, d = ratio.as_integer_ratio()
-    new_time_data = resample_poly(sig.time_data, up=u, down=d, axis=0)
+    new_time_data = resample_poly(_get_full_time_data(sig), up=u, down=d, axis=0)
     new_sig = sig.copy_with_new_time_data(
         new_time_data * (d / u) if rescaling else new_time_data
     )
-- 
2.43.0


From 83e7535e5b4a2da28716e6a7a4e0e6570e6e270c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:07 +0000
Subject: [PATCH 029/225] fix: appending multiband signals uses all bands of
 the first signal

---
 dsptoolbox/standard/appending.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dsptoolbox/standard/appending.py b/dsptoolbox/standard/appending.py
index 54b93e5..cd293f9 100644
--- a/dsptoolbox/standard/appending.py
+++ b/dsptoolbox/standard/appending.py
@@ -115,7 +115,7 @@ def append_signals(
         signals_without_first = signals.copy()  # Shallow copy
         signals_without_first.pop(0)
         for n in range(signals[0].number_of_bands):
-            new_band = signals[0].bands[0].copy()
+            new_band = signals[0].bands[n].copy()
             for s in signals_without_first:
                 new_band = append_signals(
                     [new_band, s.bands[n]], allow_padding_trimming, at_end
-- 
2.43.0


From d9556bb87ca55d5d1490faecf7b42436ad965edc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:07 +0000
Subject: [PATCH 030/225] fix: time selection with a bound at zero and at exact
 samples

---
 dsptoolbox/standard/pad_trim_methods.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/dsptoolbox/standard/pad_trim_methods.py b/dsptoolbox/standard/pad_trim_methods.py
index 66f15e8..c4bfa10 100644
--- a/dsptoolbox/standard/pad_trim_methods.py
+++ b/dsptoolbox/standard/pad_trim_methods.py
@@ -209,23 +209,23 @@ def trim_with_time_selection(
         assert (
             start_time_s is not None or end_time_s is not None
         ), "At least one bound must be other than None"
-        if start_time_s:
+        if start_time_s is not None:
             assert start_time_s >= 0.0, "Start time must be at least zero"
             assert (
                 start_time_s < signal.length_seconds
             ), "Start time must be less than signal's length"
-            start_sample = int(start_time_s * signal.sampling_rate_hz)
+            start_sample = int(start_time_s * signal.sampling_rate_hz + 0.5)
             if not inclusive:
                 start_sample += 1
         else:
             start_sample = 0
 
-        if end_time_s:
+        if end_time_s is not None:
             assert end_time_s > 0.0, "End time must be greater than 0"
             assert (
                 end_time_s <= signal.length_seconds
             ), "End time must be less than signal length"
-            end_sample = int(end_time_s * signal.sampling_rate_hz)
+            end_sample = int(end_time_s * signal.sampling_rate_hz + 0.5)
             if inclusive:
                 end_sample += 1
         else:
-- 
2.43.0


From 702bdcbcc393026b2f263a841a85f45ff04f8b6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:07 +0000
Subject: [PATCH 031/225] fix: logarithmic fade over a single sample

---
 dsptoolbox/helpers/gain_and_level.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dsptoolbox/helpers/gain_and_level.py b/dsptoolbox/helpers/gain_and_level.py
index b788795..320de45 100644
--- a/dsptoolbox/helpers/gain_and_level.py
+++ b/dsptoolbox/helpers/gain_and_level.py
@@ -141,7 +141,7 @@ def _fade(
         case FadeType.Logarithmic:
             # The constant 50 could be an extra parameter for the user...
             fade = np.log10(np.linspace(1, 50 * 10**0.5, l_samples))
-            fade /= fade[-1]
+            fade /= np.log10(50 * 10**0.5)
         case _:
             raise ValueError("No valid fade")
 
-- 
2.43.0


From 34614ba6d40ae5cf0e93516721cf7416dbb2b7a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:07 +0000
Subject: [PATCH 032/225] fix: RMS value of signals with an offset

---
 dsptoolbox/helpers/gain_and_level.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dsptoolbox/helpers/gain_and_level.py b/dsptoolbox/helpers/gain_and_level.py
index 320de45..8a6c74f 100644
--- a/dsptoolbox/helpers/gain_and_level.py
+++ b/dsptoolbox/helpers/gain_and_level.py
@@ -21,7 +21,7 @@ def _rms(x: NDArray[np.float64]) -> float | NDArray[np.float64]:
     """
     single_dim = x.ndim == 1
     x = x[..., None] if single_dim else x
-    rms_vals = np.std(x, axis=0)
+    rms_vals = np.mean(np.abs(x) ** 2.0, axis=0) ** 0.5
     return rms_vals[..., 0] if single_dim else rms_vals
 
 
-- 
2.43.0


From 147314fc4eab60f8e4423473dd443fb1aaba4c23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:07 +0000
Subject: [PATCH 033/225] fix: calibration from the spectrum of the calibration
 signal

---
 dsptoolbox/classes/calibration_data.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/dsptoolbox/classes/calibration_data.py b/dsptoolbox/classes/calibration_data.py
index b026879..15cf2bb 100644
--- a/dsptoolbox/classes/calibration_data.py
+++ b/dsptoolbox/classes/calibration_data.py
@@ -2,6 +2,7 @@ import numpy as np
 from numpy.typing import NDArray
 
 from ..standard import append_signals, rms
+from ..standard.enums import SpectrumMethod, SpectrumScaling
 from .signal import Signal
 from .multibandsignal import MultiBandSignal
 
@@ -116,10 +117,11 @@ class CalibrationData:
             self.__update = False
 
     def _get_rms_from_spectrum(self):
-        self.calibration_signal.set_spectrum_parameters(
-            method="standard", scaling="amplitude spectrum"
+        signal = self.calibration_signal.copy()
+        signal.set_spectrum_parameters(
+            method=SpectrumMethod.FFT, scaling=SpectrumScaling.AmplitudeSpectrum
         )
-        f, sp = self.calibration_signal.get_spectrum()
+        f, sp = signal.get_spectrum()
         ind1k = np.argmin(np.abs(f - 1e3))
         return np.abs(sp[ind1k, :])
 
-- 
2.43.0


From 45cd240e3e28be318c98a341386f64eb1450c845 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:07 +0000
Subject: [PATCH 034/225] fix: latency of several channels to the first one is
 in the order of the channels

---
 dsptoolbox/helpers/latency.py            | 6 +++---
 dsptoolbox/standard/_standard_backend.py | 9 +++++----
 2 files changed, 8 insertions(+), 7 deletions(-)

diff --git a/dsptoolbox/helpers/latency.py b/dsptoolbox/helpers/latency.py
index 7473425..a1c5fd4 100644
--- a/dsptoolbox/helpers/latency.py
+++ b/dsptoolbox/helpers/latency.py
@@ -138,9 +138,9 @@ def _fractional_latency(
 
     """
     if td2 is None:
-        td2_ = td1[:, 0][..., None]
-        td1_ = np.atleast_2d(td1[:, 1:])
-        xcor = correlate(td2_, td1_)
+        xcor = np.zeros((td1.shape[0] * 2 - 1, td1.shape[1] - 1))
+        for i in range(td1.shape[1] - 1):
+            xcor[:, i] = correlate(td1[:, 0], td1[:, i + 1])
     else:
         xcor = np.zeros((td1.shape[0] + td2.shape[0] - 1, td2.shape[1]))
         for i in range(td2.shape[1]):
diff --git a/dsptoolbox/standard/_standard_backend.py b/dsptoolbox/standard/_standard_backend.py
index 0e47c65..2ae8b86 100644
--- a/dsptoolbox/standard/_standard_backend.py
+++ b/dsptoolbox/standard/_standard_backend.py
@@ -30,10 +30,11 @@ def _latency(
 
     """
     if in2 is None:
-        in2_ = in1[:, 0][..., None]
-        in1_ = np.atleast_2d(in1[:, 1:])
-        xcorr = correlate(in2_, in1_, mode="full")
-        peak_inds = np.argmax(np.abs(xcorr), axis=0)
+        in2_ = in1[:, 0]
+        peak_inds = np.zeros(in1.shape[1] - 1, dtype=int)
+        for i in range(in1.shape[1] - 1):
+            xcorr = correlate(in2_, in1[:, i + 1], mode="full")
+            peak_inds[i] = int(np.argmax(np.abs(xcorr)))
     else:
         peak_inds = np.zeros(in1.shape[1], dtype=int)
         for i in range(in1.shape[1]):
-- 
2.43.0


From c1ac9d29d781211581907c4d82d054a810f6c528 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:22 +0000
Subject: [PATCH 035/225] fix: activity detector uses the attack time and
 releases in digital silence

---
 dsptoolbox/standard/_standard_backend.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/dsptoolbox/standard/_standard_backend.py b/dsptoolbox/standard/_standard_backend.py
index 2ae8b86..8737993 100644
--- a/dsptoolbox/standard/_standard_backend.py
+++ b/dsptoolbox/standard/_standard_backend.py
@@ -374,12 +374,11 @@ def _indices_above_threshold_dbfs(
 
     momentary_gain = np.zeros(len(time_power), dtype=np.float64)
     for i in np.arange(1, len(time_power)):
-        if momentary_gain[i] > time_power[i - 1]:
-            coeff = attack_smoothing_coeff
-        elif momentary_gain[i] < time_power[i - 1]:
-            coeff = release_smoothing_coeff
-        else:
-            coeff = 0
+        coeff = (
+            attack_smoothing_coeff
+            if time_power[i] > momentary_gain[i - 1]
+            else release_smoothing_coeff
+        )
         momentary_gain[i] = coeff * time_power[i] + (1 - coeff) * momentary_gain[i - 1]
     momentary_gain = 10.0 * np.log10(momentary_gain)
 
-- 
2.43.0


From 238fa86f44ac955b32aeb31133650329175d3205 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:13 +0000
Subject: [PATCH 036/225] fix: filtering keeps the imaginary part of the signal

---
 dsptoolbox/classes/filter_helpers.py | 25 +++++++++++++++----------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/dsptoolbox/classes/filter_helpers.py b/dsptoolbox/classes/filter_helpers.py
index 004644c..fced66b 100644
--- a/dsptoolbox/classes/filter_helpers.py
+++ b/dsptoolbox/classes/filter_helpers.py
@@ -9,6 +9,7 @@ from numpy.typing import NDArray
 
 from .signal import Signal
 from .multibandsignal import MultiBandSignal
+from ..standard._standard_backend import _get_full_time_data
 from ..helpers.polyphase import _polyphase_decomposition
 from ..standard.enums import BiquadEqType, FilterBankMode
 
@@ -243,11 +244,13 @@ def _filter_on_signal(
 
     """
     # Time Data
-    new_time_data = signal.time_data.copy()
+    time_data = _get_full_time_data(signal)
+    new_time_data = time_data.copy()
 
     # zi unpacking
     if zi is not None:
         zi = np.moveaxis(np.asarray(zi), 0, -1)
+        zi = zi.astype(np.result_type(zi, time_data, sos))
 
     # Channels
     if channels is None:
@@ -256,16 +259,16 @@ def _filter_on_signal(
     # Filtering
     if zi is not None:
         y, zi[:, :, channels] = sig.sosfilt(
-            sos, signal.time_data[:, channels], zi=zi[:, :, channels], axis=0
+            sos, time_data[:, channels], zi=zi[:, :, channels], axis=0
         )
     else:
         if zero_phase:
-            y = sig.sosfiltfilt(sos, signal.time_data[:, channels], axis=0)
+            y = sig.sosfiltfilt(sos, time_data[:, channels], axis=0)
         else:
-            y = sig.sosfilt(sos, signal.time_data[:, channels], axis=0)
+            y = sig.sosfilt(sos, time_data[:, channels], axis=0)
 
     # Check for complex output
-    if np.iscomplexobj(y):
+    if np.iscomplexobj(y) and not signal.is_complex_signal:
         if warning_on_complex_output:
             warn(
                 "Filter output is complex. Imaginary part is saved in "
@@ -336,11 +339,13 @@ def _filter_on_signal_ba(
         lfilter = sig.lfilter
 
     # Time Data
-    new_time_data = signal.time_data.copy()
+    time_data = _get_full_time_data(signal)
+    new_time_data = time_data.copy()
 
     # zi unpacking
     if zi is not None:
         zi = np.asarray(zi).T
+        zi = zi.astype(np.result_type(zi, time_data, *ba))
 
     # Channels
     if channels is None:
@@ -351,18 +356,18 @@ def _filter_on_signal_ba(
         y, zi[:, channels] = lfilter(
             ba[0],
             a=ba[1],
-            x=signal.time_data[:, channels],
+            x=time_data[:, channels],
             zi=zi[:, channels],
             axis=0,
         )
     else:
         if zero_phase:
-            y = sig.filtfilt(b=ba[0], a=ba[1], x=signal.time_data[:, channels], axis=0)
+            y = sig.filtfilt(b=ba[0], a=ba[1], x=time_data[:, channels], axis=0)
         else:
-            y = lfilter(ba[0], a=ba[1], x=signal.time_data[:, channels], axis=0)
+            y = lfilter(ba[0], a=ba[1], x=time_data[:, channels], axis=0)
 
     # Check for complex output
-    if np.iscomplexobj(y):
+    if np.iscomplexobj(y) and not signal.is_complex_signal:
         if warning_on_complex_output:
             warn(
                 "Filter output is complex. Imaginary part is saved in "
-- 
2.43.0


From 06a6935a05ee0dae58012f0960606a9dd4404972 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:13 +0000
Subject: [PATCH 037/225] fix: signals with a single sample

---
 dsptoolbox/classes/signal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dsptoolbox/classes/signal.py b/dsptoolbox/classes/signal.py
index fe8a383..a20e16d 100644
--- a/dsptoolbox/classes/signal.py
+++ b/dsptoolbox/classes/signal.py
@@ -260,7 +260,7 @@ class Signal(MultichannelData):
             + " be [time samples, channels]"
         )
         if new_time_data.ndim < 2:
-            new_time_data = new_time_data[..., None]
+            new_time_data = new_time_data.reshape(-1, 1)
 
         # Assume always that there are more time samples than channels
         if new_time_data.shape[1] > new_time_data.shape[0]:
-- 
2.43.0


From 372024c1d54fef52db2ea8a0c5fc3491ca384eef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:35 +0000
Subject: [PATCH 038/225] fix: decimating and interpolating with short FIR
 filters

---
 dsptoolbox/classes/filter_helpers.py | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/dsptoolbox/classes/filter_helpers.py b/dsptoolbox/classes/filter_helpers.py
index fced66b..82501c0 100644
--- a/dsptoolbox/classes/filter_helpers.py
+++ b/dsptoolbox/classes/filter_helpers.py
@@ -561,9 +561,9 @@ def _filter_and_downsample(
                 )
             new_time_data[:, ch] = temp
         # Take correct values from vector
-        new_time_data = new_time_data[
-            half_length // down_factor : -half_length // down_factor, :
-        ]
+        start = half_length // down_factor
+        stop = new_time_data.shape[0] - -(-half_length // down_factor)
+        new_time_data = new_time_data[start:stop, :]
     else:
         new_time_data = sig.lfilter(
             ba_coefficients[0], ba_coefficients[1], x=time_data, axis=0
@@ -637,11 +637,10 @@ def _filter_and_upsample(
 
         # Take right samples from filtered signal
         if padding == up_factor:
-            new_time_data = new_time_data[half_length:-half_length, :]
-        else:
-            new_time_data = new_time_data[
-                half_length + padding : -half_length + padding, :
-            ]
+            padding = 0
+        new_time_data = new_time_data[
+            half_length + padding : len(new_time_data) - half_length + padding, :
+        ]
     else:
         new_time_data = np.zeros((time_data.shape[0] * up_factor, time_data.shape[1]))
         new_time_data[::up_factor] = time_data * up_factor
-- 
2.43.0


From 42b9c66952e102d2507151fe7e9af0fc0e837fb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:57 +0000
Subject: [PATCH 039/225] fix: second-order sections of filters with leading
 zeros

---
 dsptoolbox/classes/filter.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/dsptoolbox/classes/filter.py b/dsptoolbox/classes/filter.py
index 5818d95..7de33af 100644
--- a/dsptoolbox/classes/filter.py
+++ b/dsptoolbox/classes/filter.py
@@ -947,7 +947,14 @@ class Filter:
                 return self.sos.copy()
             if self.order > 500:
                 warn("Order is above 500. Computing SOS might take a " + "long time")
-            return sig.tf2sos(self.ba[0], self.ba[1])
+            # A delay (leading zeros of b) is lost in tf2sos
+            b, a = self.ba
+            delay = int(np.flatnonzero(b)[0]) if np.any(b) else 0
+            sos = sig.tf2sos(b[delay:], a)
+            for n in range(0, delay, 2):
+                section = [0.0, 1.0, 0.0] if delay - n == 1 else [0.0, 0.0, 1.0]
+                sos = np.vstack([sos, section + [1.0, 0.0, 0.0]])
+            return sos
         elif coefficients_mode == FilterCoefficientsType.Ba:
             if self.has_sos:
                 return sig.sos2tf(self.sos)
-- 
2.43.0


From 9a856f33ef7cfbb2a81147447578a7c4b5a22edf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:41 +0000
Subject: [PATCH 040/225] fix: moving-average parameters of impulse responses
 with odd length

---
 dsptoolbox/filterbanks/_filterbank.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/dsptoolbox/filterbanks/_filterbank.py b/dsptoolbox/filterbanks/_filterbank.py
index a2b65dc..f5251ae 100644
--- a/dsptoolbox/filterbanks/_filterbank.py
+++ b/dsptoolbox/filterbanks/_filterbank.py
@@ -1538,14 +1538,13 @@ def __ma_parameters(
     A = np.zeros((N // 2 + 1, num_coefficients), dtype=np.complex128)
     target_sp = np.hstack([np.real(spec), np.imag(spec)])
 
-    length = N // 2 + 1
-    include_nyquist = N % 2 == 0
+    # Frequencies of the DFT bins
+    omega = 2.0 * np.pi * np.arange(N // 2 + 1) / N
     for n in range(num_coefficients):
         A[:, n] = freqz(
             np.array([0.0] * n + [1.0]),
             ar_coefficients,
-            worN=length,
-            include_nyquist=include_nyquist,
+            worN=omega,
         )[1]
 
     return lstsq(
-- 
2.43.0


From b9796ea281bdf2f48c1fa777780f065437692ea1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:05 +0000
Subject: [PATCH 041/225] fix: filter state is kept between blocks

---
 dsptoolbox/classes/filter_helpers.py | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/dsptoolbox/classes/filter_helpers.py b/dsptoolbox/classes/filter_helpers.py
index 82501c0..36ed488 100644
--- a/dsptoolbox/classes/filter_helpers.py
+++ b/dsptoolbox/classes/filter_helpers.py
@@ -282,9 +282,7 @@ def _filter_on_signal(
 
     # zi packing
     if zi is not None:
-        zi_new = []
-        for n in range(signal.number_of_channels):
-            zi_new.append(zi[:, :, n])
+        zi = [zi[:, :, n] for n in range(signal.number_of_channels)]
     return new_signal, zi
 
 
@@ -381,9 +379,7 @@ def _filter_on_signal_ba(
 
     # zi packing
     if zi is not None:
-        zi_new = []
-        for n in range(zi.shape[1]):
-            zi_new.append(zi[:, n])
+        zi = [zi[:, n] for n in range(zi.shape[1])]
     return new_signal, zi
 
 
@@ -499,7 +495,7 @@ def _lfilter_fir(
     # Use zi's and take zf's
     if zi is not None:
         y[: zi.shape[0], :] += zi
-        zf = y[-zi.shape[0] :, :]
+        zf = y[x.shape[0] :, :]
 
     # Trim output
     y = y[: x.shape[0], :]
-- 
2.43.0


From bf974c6a4d12807297888e520314fbb6a3a8b8fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:05 +0000
Subject: [PATCH 042/225] fix: realtime FIR filter with a single coefficient

---
 dsptoolbox/classes/fir_filter_realtime.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dsptoolbox/classes/fir_filter_realtime.py b/dsptoolbox/classes/fir_filter_realtime.py
index cb3a2f6..1eb5465 100644
--- a/dsptoolbox/classes/fir_filter_realtime.py
+++ b/dsptoolbox/classes/fir_filter_realtime.py
@@ -59,6 +59,8 @@ class FIRFilter(RealtimeFilter):
     def process_sample(self, x: float, channel: int):
         """Process a sample."""
         y = self.b[0] * x
+        if self.order == 0:
+            return y
 
         write_index = self.current_state_ind[channel]
         for i in range(self.order):
-- 
2.43.0


From 2d625c546f1abebd10a9379e291189872ef874b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:05 +0000
Subject: [PATCH 043/225] fix: overlap-save convolution with odd transform
 lengths

---
 dsptoolbox/classes/fir_filter_realtime.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/dsptoolbox/classes/fir_filter_realtime.py b/dsptoolbox/classes/fir_filter_realtime.py
index 1eb5465..01351d5 100644
--- a/dsptoolbox/classes/fir_filter_realtime.py
+++ b/dsptoolbox/classes/fir_filter_realtime.py
@@ -137,9 +137,9 @@ class FIRFilterOverlapSave(RealtimeFilter):
 
         """
         self.buffer[-self.blocksize :, channel] = block
-        output_data = fft.irfft(fft.rfft(self.buffer[:, channel]) * self.fir_spectrum)[
-            -self.blocksize :
-        ]
+        output_data = fft.irfft(
+            fft.rfft(self.buffer[:, channel]) * self.fir_spectrum, n=self.total_length
+        )[-self.blocksize :]
 
         # Roll buffer
         self.buffer[: -self.blocksize, channel] = self.buffer[self.blocksize :, channel]
-- 
2.43.0


From cd0b4e6374f58cc06cb29bb815ff4b1fc1fc53af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:18 +0000
Subject: [PATCH 044/225] fix: partitioned convolution of several channels

---
 dsptoolbox/classes/fir_filter_realtime.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/dsptoolbox/classes/fir_filter_realtime.py b/dsptoolbox/classes/fir_filter_realtime.py
index 01351d5..53a0861 100644
--- a/dsptoolbox/classes/fir_filter_realtime.py
+++ b/dsptoolbox/classes/fir_filter_realtime.py
@@ -200,8 +200,8 @@ class FIRUniformPartitioned(FIRFilterOverlapSave):
             partitioned[: len(partition), n] = partition
         self.partitioned_spectrum = fft.rfft(partitioned, axis=0, n=self.fft_size)
 
-        # Buffer index for filter
-        self.buffer_ind = 0
+        # Buffer index for filter (each channel advances on its own)
+        self.buffer_ind = np.zeros(n_channels, dtype=np.int_)
 
         # Helper for avoiding allocations in process
         self.buffer_index_helper = np.arange(self.n_partitions)
@@ -221,7 +221,8 @@ class FIRUniformPartitioned(FIRFilterOverlapSave):
         self.input_buffer[-self.blocksize :, channel] = block
 
         # Transform input
-        self.buffer_spectra[:, self.buffer_ind, channel] = fft.rfft(
+        buffer_ind = self.buffer_ind[channel]
+        self.buffer_spectra[:, buffer_ind, channel] = fft.rfft(
             self.input_buffer[:, channel]
         )
 
@@ -229,14 +230,13 @@ class FIRUniformPartitioned(FIRFilterOverlapSave):
         output = np.sum(
             self.partitioned_spectrum
             * self.buffer_spectra[
-                :, self.buffer_ind - self.buffer_index_helper, channel
+                :, buffer_ind - self.buffer_index_helper, channel
             ],
             axis=1,
         )
 
         # Advance filter buffer
-        self.buffer_ind += 1
-        self.buffer_ind %= self.n_partitions
+        self.buffer_ind[channel] = (buffer_ind + 1) % self.n_partitions
 
         # Get output
         return fft.irfft(output)[-self.blocksize :]
-- 
2.43.0


From 77d0c368ec556ba541853094f41eb147378a5a2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:18 +0000
Subject: [PATCH 045/225] fix: multichannel partitioned convolution keeps the
 level of its filters

---
 dsptoolbox/classes/fir_filter_realtime.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dsptoolbox/classes/fir_filter_realtime.py b/dsptoolbox/classes/fir_filter_realtime.py
index 53a0861..02a9dd1 100644
--- a/dsptoolbox/classes/fir_filter_realtime.py
+++ b/dsptoolbox/classes/fir_filter_realtime.py
@@ -261,7 +261,9 @@ class FIRUniformPartitionedMultichannel(FIRUniformPartitioned):
 
         """
         # Bring into standard form
-        self.fir = Signal.from_time_data(fir, 10000).time_data
+        self.fir = Signal.from_time_data(
+            fir, 10000, constrain_amplitude=False
+        ).time_data
 
     def prepare(self, blocksize_samples: int):  # type: ignore
         """Prepares the processing.
-- 
2.43.0


From e80f0196edec7cacc75c5927964123b6c9130349 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:18 +0000
Subject: [PATCH 046/225] fix: exponential average of several channels

---
 dsptoolbox/classes/exponential_average_filter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dsptoolbox/classes/exponential_average_filter.py b/dsptoolbox/classes/exponential_average_filter.py
index 307348c..2b0cb3a 100644
--- a/dsptoolbox/classes/exponential_average_filter.py
+++ b/dsptoolbox/classes/exponential_average_filter.py
@@ -47,7 +47,7 @@ class ExponentialAverageFilter(RealtimeFilter):
         self.state.fill(0.0)
 
     def process_sample(self, x: float, channel: int):
-        if x > self.state:  # Ascending
+        if x > self.state[0, channel]:  # Ascending
             y = (
                 x * self.increase_coefficient
                 + (1 - self.increase_coefficient) * self.state[0, channel]
-- 
2.43.0


From 75b923fb676230cea1620c0d9425d1d4a04631dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:18 +0000
Subject: [PATCH 047/225] fix: realtime IIR filter leaves the coefficients it
 is given unchanged

---
 dsptoolbox/classes/iir_filter_realtime.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dsptoolbox/classes/iir_filter_realtime.py b/dsptoolbox/classes/iir_filter_realtime.py
index b30fced..59298d3 100644
--- a/dsptoolbox/classes/iir_filter_realtime.py
+++ b/dsptoolbox/classes/iir_filter_realtime.py
@@ -24,8 +24,8 @@ class IIRFilter(RealtimeFilter):
             Denominator coefficients
 
         """
-        b /= a[0]
-        a /= a[0]
+        b = np.asarray(b) / a[0]
+        a = np.asarray(a) / a[0]
         self.order = max(len(b), len(a)) - 1
         self.b = np.pad(b, ((0, self.order + 1 - len(b))))
         self.a = np.pad(a, ((0, self.order + 1 - len(a))))
-- 
2.43.0


From a7ebe3821ee001bd988b2093e281af421de7973f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:27 +0000
Subject: [PATCH 048/225] fix: impulse responses of filter structures above 0
 dBFS keep their level

---
 dsptoolbox/generators/generators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dsptoolbox/generators/generators.py b/dsptoolbox/generators/generators.py
index a8414e2..8641c5c 100644
--- a/dsptoolbox/generators/generators.py
+++ b/dsptoolbox/generators/generators.py
@@ -310,7 +310,7 @@ def dirac(
     td = np.zeros((length_samples, number_of_channels))
     for n in range(number_of_channels):
         td[:, n] = _impulse(length_samples=length_samples, delay_samples=delay_samples)
-    imp = ImpulseResponse(None, td, sampling_rate_hz)
+    imp = ImpulseResponse(None, td, sampling_rate_hz, constrain_amplitude=False)
     return imp
 
 
-- 
2.43.0


From 0ef9084cac811a5a0ed191e1a64b19e735f12723 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:27 +0000
Subject: [PATCH 049/225] fix: realtime IIR filter of order zero

---
 dsptoolbox/classes/iir_filter_realtime.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dsptoolbox/classes/iir_filter_realtime.py b/dsptoolbox/classes/iir_filter_realtime.py
index 59298d3..de43c83 100644
--- a/dsptoolbox/classes/iir_filter_realtime.py
+++ b/dsptoolbox/classes/iir_filter_realtime.py
@@ -57,6 +57,8 @@ class IIRFilter(RealtimeFilter):
         self.state.fill(0.0)
 
     def process_sample(self, x: float, channel: int):
+        if self.order == 0:
+            return self.b[0] * x
         y = self.b[0] * x + self.state[0, channel]
         for i in range(self.order - 1):
             self.state[i, channel] = (
-- 
2.43.0


From b75798ab90288938b89658a35855148044ab478d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:27 +0000
Subject: [PATCH 050/225] fix: crossovers with several bands keep separate
 all-pass states

---
 dsptoolbox/filterbanks/_filterbank.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dsptoolbox/filterbanks/_filterbank.py b/dsptoolbox/filterbanks/_filterbank.py
index f5251ae..83e82b3 100644
--- a/dsptoolbox/filterbanks/_filterbank.py
+++ b/dsptoolbox/filterbanks/_filterbank.py
@@ -207,7 +207,7 @@ class LRFilterBank:
                     allp_zi_l = sosfilt_zi(self.sos[i2][0])  # Low band
                     allp_zi_h = sosfilt_zi(self.sos[i2][1])  # High band
                     al.append([allp_zi_l, allp_zi_h])
-                    allpass_zi.append(al)
+                allpass_zi.append(al)
             self.channels_zi.append([cross_zi, allpass_zi])
 
     # ======== Filtering ======================================================
-- 
2.43.0


From 6f51953731f370fa379862b91b62d85dcc5eb7f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:27 +0000
Subject: [PATCH 051/225] fix: state-space filters of first order

---
 dsptoolbox/classes/state_space_filter.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/dsptoolbox/classes/state_space_filter.py b/dsptoolbox/classes/state_space_filter.py
index 18d3e0a..b016555 100644
--- a/dsptoolbox/classes/state_space_filter.py
+++ b/dsptoolbox/classes/state_space_filter.py
@@ -48,9 +48,9 @@ class StateSpaceFilter(RealtimeFilter):
         """
         assert A.ndim == 2, "Matrix A should have exactly 2 dimensions"
         assert len(B) == A.shape[1], "Matrix B dimensions are not valid"
-        self.A = A.squeeze()
-        self.B = B.squeeze()
-        self.C = C.squeeze()
+        self.A = A
+        self.B = B.reshape(-1)
+        self.C = C.reshape(-1)
         self.D = D.squeeze()
         self.set_n_channels(1)
 
-- 
2.43.0


From 1352178d7a7a6e8e49581721eb3f79eb47e85289 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:27 +0000
Subject: [PATCH 052/225] fix: state-space filters from coefficients of
 different lengths

---
 dsptoolbox/classes/state_space_filter.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dsptoolbox/classes/state_space_filter.py b/dsptoolbox/classes/state_space_filter.py
index b016555..43f370f 100644
--- a/dsptoolbox/classes/state_space_filter.py
+++ b/dsptoolbox/classes/state_space_filter.py
@@ -71,6 +71,10 @@ class StateSpaceFilter(RealtimeFilter):
 
         """
         b, a = filt.get_coefficients(FilterCoefficientsType.Ba)
+        # In powers of z, both polynomials must have the same length
+        length = max(len(b), len(a))
+        b = np.pad(b, (0, length - len(b)))
+        a = np.pad(a, (0, length - len(a)))
         return StateSpaceFilter(*tf2ss(b, a))
 
     @staticmethod
-- 
2.43.0


From be70b532acef6dd16a2b7be9efb37a31844b18e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:27 +0000
Subject: [PATCH 053/225] fix: lattice-ladder filters from coefficients of
 different lengths

---
 dsptoolbox/classes/lattice_ladder_filter.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/dsptoolbox/classes/lattice_ladder_filter.py b/dsptoolbox/classes/lattice_ladder_filter.py
index 9a3c900..d4ed18c 100644
--- a/dsptoolbox/classes/lattice_ladder_filter.py
+++ b/dsptoolbox/classes/lattice_ladder_filter.py
@@ -134,6 +134,9 @@ class LatticeLadderFilter(RealtimeFilter):
                 return LatticeLadderFilter(k, c, filt.sampling_rate_hz)
 
             b, a = filt.get_coefficients(FilterCoefficientsType.Ba)
+            length = max(len(b), len(a))
+            b = np.pad(b, (0, length - len(b))) / a[0]
+            a = np.pad(a, (0, length - len(a))) / a[0]
             k, c = _get_lattice_ladder_coefficients_iir(b, a)
             return LatticeLadderFilter(k, c, filt.sampling_rate_hz)
 
@@ -466,7 +469,7 @@ def _get_lattice_ladder_coefficients_iir_sos(
     """
     # Normalize second-order sections individually
     if not np.all(sos[:, 3] == 1.0):
-        sos /= sos[:, 3]
+        sos = sos / sos[:, 3][:, None]
 
     n_sections = sos.shape[0]
     k = np.zeros((n_sections, 2))
-- 
2.43.0


From 89bf5f7b4fa32d624857e4ad70dad57d3ef2f049 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:58 +0000
Subject: [PATCH 054/225] fix: summed filter bank output keeps its imaginary
 part

---
 dsptoolbox/classes/filter_helpers.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/dsptoolbox/classes/filter_helpers.py b/dsptoolbox/classes/filter_helpers.py
index 36ed488..cd7c411 100644
--- a/dsptoolbox/classes/filter_helpers.py
+++ b/dsptoolbox/classes/filter_helpers.py
@@ -438,15 +438,12 @@ def _filterbank_on_signal(
                 )
             return out_sig
         case FilterBankMode.Summed:
-            new_time_data = np.zeros(
-                (signal.time_data.shape[0], signal.number_of_channels, n_filt)
-            )
+            new_time_data = 0.0
             for n in range(n_filt):
                 s = filters[n].filter_signal(
                     signal, activate_zi=activate_zi, zero_phase=zero_phase
                 )
-                new_time_data[:, :, n] = s.time_data
-            new_time_data = np.sum(new_time_data, axis=-1)
+                new_time_data = new_time_data + _get_full_time_data(s)
             return signal.copy_with_new_time_data(new_time_data)
         case _:
             raise ValueError("Invalid filter bank apply mode")
-- 
2.43.0


From 0023ed00e7d6fcf4fabdc7201d4b88d9adbacee8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:58 +0000
Subject: [PATCH 055/225] fix: crossovers keep the imaginary part of the signal

---
 dsptoolbox/filterbanks/_filterbank.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/dsptoolbox/filterbanks/_filterbank.py b/dsptoolbox/filterbanks/_filterbank.py
index 83e82b3..9ea6fb3 100644
--- a/dsptoolbox/filterbanks/_filterbank.py
+++ b/dsptoolbox/filterbanks/_filterbank.py
@@ -31,7 +31,7 @@ from ..plots import general_plot
 from ..helpers.spectrum_utilities import _get_normalized_spectrum
 from ..helpers.other import find_nearest_points_index_in_vector
 from ..helpers.ar_estimation import _burg_ar_estimation, _yw_ar_estimation
-from ..standard._standard_backend import _group_delay_direct
+from ..standard._standard_backend import _group_delay_direct, _get_full_time_data
 from ..standard.enums import (
     FilterCoefficientsType,
     FilterBankMode,
@@ -252,10 +252,11 @@ class LRFilterBank:
         assert not (
             activate_zi and zero_phase
         ), "Zero phase filtering and activating zi is a valid setting"
+        in_sig = _get_full_time_data(s).copy()
         new_time_data = np.zeros(
-            (s.time_data.shape[0], s.number_of_channels, self.number_of_bands)
+            (s.time_data.shape[0], s.number_of_channels, self.number_of_bands),
+            dtype=in_sig.dtype,
         )
-        in_sig = s.time_data.copy()
 
         # Filter with zi
         if activate_zi:
-- 
2.43.0


From 86bd926b3862d993dc51a67695eda28125f3dc0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:58 +0000
Subject: [PATCH 056/225] fix: state-variable filter keeps the settings of the
 signal

---
 dsptoolbox/classes/sv_filter.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dsptoolbox/classes/sv_filter.py b/dsptoolbox/classes/sv_filter.py
index f1585b2..f53f042 100644
--- a/dsptoolbox/classes/sv_filter.py
+++ b/dsptoolbox/classes/sv_filter.py
@@ -103,7 +103,7 @@ class StateVariableFilter(RealtimeFilter):
         """
         input = np.atleast_2d(input)
         assert input.ndim < 3, "Too many dimensions for input array"
-        outputs = np.zeros((max(input.shape), 4, min(input.shape)))
+        outputs = np.zeros((input.shape[0], 4, input.shape[1]))
         if self.n_channels != input.shape[1]:
             self.set_n_channels(input.shape[1])
 
@@ -139,7 +139,7 @@ class StateVariableFilter(RealtimeFilter):
         td = self.__process_vector(signal.time_data)
         return MultiBandSignal(
             [
-                type(signal)(None, td[:, i, :], sampling_rate_hz=self.sampling_rate_hz)
+                signal.copy_with_new_time_data(td[:, i, :])
                 for i in range(4)
             ]
         )
-- 
2.43.0


From d1d8ff454be1eef31fdacf6467cf5ef6f93e9e5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:58 +0000
Subject: [PATCH 057/225] fix: lattice FIR filters keep the gain of their
 filter

---
 dsptoolbox/classes/lattice_ladder_filter.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/dsptoolbox/classes/lattice_ladder_filter.py b/dsptoolbox/classes/lattice_ladder_filter.py
index d4ed18c..799bf68 100644
--- a/dsptoolbox/classes/lattice_ladder_filter.py
+++ b/dsptoolbox/classes/lattice_ladder_filter.py
@@ -101,6 +101,7 @@ class LatticeLadderFilter(RealtimeFilter):
         self.c = c_coefficients
         self.state: NDArray[np.float64] | None = None
         self.sampling_rate_hz = sampling_rate_hz
+        self.gain = 1.0  # Only used in the FIR structure
         self.set_n_channels(1)
 
     @staticmethod
@@ -142,13 +143,16 @@ class LatticeLadderFilter(RealtimeFilter):
 
         # FIR
         b, a = filt.get_coefficients(FilterCoefficientsType.Ba)
-        b /= b[0]
+        gain = b[0]
+        b /= gain
         k = _get_lattice_coefficients_fir(b)
         assert np.all(np.abs(k) < 1), (
             "Some reflection coefficient was "
             + "equal or larger than zero, this is not supported"
         )
-        return LatticeLadderFilter(k, None, filt.sampling_rate_hz)
+        lattice = LatticeLadderFilter(k, None, filt.sampling_rate_hz)
+        lattice.gain = gain
+        return lattice
 
     def set_n_channels(self, n_channels: int):
         assert n_channels > 0, "At least one channel must be initialized"
@@ -207,6 +211,7 @@ class LatticeLadderFilter(RealtimeFilter):
                 )
         elif not self.iir_filter:
             td, self.state = _lattice_filtering_fir(self.k, td, self.state)
+            td *= self.gain
         elif self.iir_filter and self.c is None:
             raise NotImplementedError("No implementation for all-pole IIR filtering")
 
@@ -283,7 +288,7 @@ class LatticeLadderFilter(RealtimeFilter):
             x_o -= self.state[i_k, channel] * self.k[i_k]
             self.state[i_k, channel] = s0
             s0 = s1
-        return x_o
+        return x_o * self.gain
 
 
 def _lattice_ladder_filtering_sos(
-- 
2.43.0


From 68f5ff4419adf8dd362fb040af520326f399cd1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:58 +0000
Subject: [PATCH 058/225] fix: parallel filters place their FIR coefficients at
 the offset used for fitting

---
 dsptoolbox/classes/parallel_filter.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/dsptoolbox/classes/parallel_filter.py b/dsptoolbox/classes/parallel_filter.py
index c69c405..75e71b5 100644
--- a/dsptoolbox/classes/parallel_filter.py
+++ b/dsptoolbox/classes/parallel_filter.py
@@ -226,8 +226,7 @@ class ParallelFilter(RealtimeFilter):
             ff = np.zeros(
                 ((self.fir_offset_samples) * (len(self.__fir_coefficients) - 1) + 1)
             )
-            ff[:: self.fir_offset_samples + 1] = self.__fir_coefficients[:-1]
-            ff[-1] = self.__fir_coefficients[-1]
+            ff[:: self.fir_offset_samples] = self.__fir_coefficients
             self.__fir_coefficients = ff
 
         self.__compute_filter_bank()
-- 
2.43.0


From 898ca3fd3321344314ef477ccfe09af9b1a97468 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:58 +0000
Subject: [PATCH 059/225] fix: coefficients of parallel filters can be set
 directly

---
 dsptoolbox/classes/parallel_filter.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/dsptoolbox/classes/parallel_filter.py b/dsptoolbox/classes/parallel_filter.py
index 75e71b5..7afdb09 100644
--- a/dsptoolbox/classes/parallel_filter.py
+++ b/dsptoolbox/classes/parallel_filter.py
@@ -76,6 +76,7 @@ class ParallelFilter(RealtimeFilter):
         self.poles = poles
         self.n_fir = n_fir
         self.sampling_rate_hz = sampling_rate_hz
+        self.__initialize_sos()
         self.set_parameters()
 
     def set_parameters(
@@ -128,6 +129,7 @@ class ParallelFilter(RealtimeFilter):
 
         for ss in range(self.__sos.shape[0]):
             self.__sos[ss, :2] = iir_coefficients[ss, :]
+            self.__sos[ss, 2] = 0.0
 
         if fir is not None:
             assert fir.ndim == 1
@@ -135,6 +137,7 @@ class ParallelFilter(RealtimeFilter):
         else:
             self.__fir_coefficients = np.array([])
         self.n_fir = len(self.__fir_coefficients)
+        self.__compute_filter_bank()
         return self
 
     def fit_to_ir(self, ir: ImpulseResponse):
@@ -161,9 +164,7 @@ class ParallelFilter(RealtimeFilter):
         fs_hz = ir.sampling_rate_hz
 
         # Get SOS
-        comp_inds = self.poles.imag != 0
-        poles = np.hstack([self.poles, self.poles[comp_inds].conjugate()])
-        self.__sos = sig.zpk2sos([], poles, 1.0)
+        self.__initialize_sos()
         n_sos = self.__sos.shape[0]
 
         # ========== Create model matrix
@@ -232,6 +233,12 @@ class ParallelFilter(RealtimeFilter):
         self.__compute_filter_bank()
         return self
 
+    def __initialize_sos(self):
+        """Create the all-pole second-order sections of the pole basis."""
+        comp_inds = self.poles.imag != 0
+        poles = np.hstack([self.poles, self.poles[comp_inds].conjugate()])
+        self.__sos = sig.zpk2sos([], poles, 1.0)
+
     def __compute_filter_bank(self):
         fb = FilterBank(
             [
-- 
2.43.0


From 820f4753d1e118cfe11412260fec5ca628f636e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:20 +0000
Subject: [PATCH 060/225] fix: RMS envelope of silent passages is zero instead
 of NaN

---
 dsptoolbox/standard/other.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dsptoolbox/standard/other.py b/dsptoolbox/standard/other.py
index f698961..80c7c01 100644
--- a/dsptoolbox/standard/other.py
+++ b/dsptoolbox/standard/other.py
@@ -260,8 +260,8 @@ def envelope(
             mode="full",
             axes=0,
         )[: len(rms_vec), ...]
-        rms_vec **= 0.5
-        return rms_vec
+        # Rounding errors of the convolution might lead to negative values
+        return np.maximum(rms_vec, 0.0) ** 0.5
     elif isinstance(signal, MultiBandSignal):
         assert (
             signal.same_sampling_rate
-- 
2.43.0


From 895a0fb5eadcf473024863753ad21241e7828691 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:02 +0000
Subject: [PATCH 061/225] fix: transfer function of a filter bank in summed
 mode

---
 dsptoolbox/classes/filterbank.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dsptoolbox/classes/filterbank.py b/dsptoolbox/classes/filterbank.py
index 31e200f..8b55380 100644
--- a/dsptoolbox/classes/filterbank.py
+++ b/dsptoolbox/classes/filterbank.py
@@ -646,7 +646,7 @@ class FilterBank:
                 for ind, f in enumerate(self.filters):
                     h *= f.get_transfer_function(frequency_vector_hz)
             case FilterBankMode.Summed:
-                h = np.ones(len(frequency_vector_hz), dtype=np.complex128)
+                h = np.zeros(len(frequency_vector_hz), dtype=np.complex128)
                 for ind, f in enumerate(self.filters):
                     h += f.get_transfer_function(frequency_vector_hz)
             case _:
-- 
2.43.0


From 475e0c3b8b3209a3f36edc8f5a336cbb59067c5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:32 +0000
Subject: [PATCH 062/225] fix: reordering a single filter or band

---
 dsptoolbox/classes/filterbank.py      | 2 +-
 dsptoolbox/classes/multibandsignal.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/dsptoolbox/classes/filterbank.py b/dsptoolbox/classes/filterbank.py
index 8b55380..07f54c1 100644
--- a/dsptoolbox/classes/filterbank.py
+++ b/dsptoolbox/classes/filterbank.py
@@ -372,7 +372,7 @@ class FilterBank:
         self
 
         """
-        new_order = np.array(new_order).squeeze()
+        new_order = np.atleast_1d(np.array(new_order).squeeze())
         assert new_order.ndim == 1, (
             "Too many or too few dimensions are given in the new "
             + "arrangement vector"
diff --git a/dsptoolbox/classes/multibandsignal.py b/dsptoolbox/classes/multibandsignal.py
index e383c41..0a87964 100644
--- a/dsptoolbox/classes/multibandsignal.py
+++ b/dsptoolbox/classes/multibandsignal.py
@@ -384,7 +384,7 @@ class MultiBandSignal:
             New rearrangement of bands.
 
         """
-        new_order = array(new_order).squeeze()
+        new_order = atleast_1d(array(new_order).squeeze())
         assert new_order.ndim == 1, (
             "Too many or too few dimensions are given in the new "
             + "arrangement vector"
-- 
2.43.0


From 300601cf22deb79e2fd95d360bd722baac10beb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:21 +0000
Subject: [PATCH 063/225] fix: decimated signals are aligned with the input

---
 dsptoolbox/classes/filter_helpers.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/dsptoolbox/classes/filter_helpers.py b/dsptoolbox/classes/filter_helpers.py
index cd7c411..44352c2 100644
--- a/dsptoolbox/classes/filter_helpers.py
+++ b/dsptoolbox/classes/filter_helpers.py
@@ -536,11 +536,17 @@ def _filter_and_downsample(
     assert time_data.ndim == 2, "Shape for time data should be (time samples, channels)"
 
     if polyphase:
+        # Padding is done at the end so that the samples stay in place
+        time_data = np.pad(time_data, ((0, -time_data.shape[0] % down_factor), (0, 0)))
         poly, _ = _polyphase_decomposition(time_data, down_factor, flip=False)
         # (time samples, polyphase components, channels)
         # Polyphase representation of filter and filter length
         b = ba_coefficients[0]
         half_length = (len(b) - 1) // 2
+        # Output sample m corresponds to the input sample m * down_factor, with
+        # the delay of the filter (half_length) removed
+        b = np.pad(b, ((down_factor - 1 - half_length) % down_factor, 0))
+        b = np.pad(b, (0, -len(b) % down_factor))
         b_poly, _ = _polyphase_decomposition(b, down_factor, flip=True)
         new_time_data = np.zeros((poly.shape[0] + b_poly.shape[0] - 1, poly.shape[2]))
         # Accumulator for each channel – it would be better to find a way
@@ -555,8 +561,7 @@ def _filter_and_downsample(
             new_time_data[:, ch] = temp
         # Take correct values from vector
         start = half_length // down_factor
-        stop = new_time_data.shape[0] - -(-half_length // down_factor)
-        new_time_data = new_time_data[start:stop, :]
+        new_time_data = new_time_data[start : start + poly.shape[0], :]
     else:
         new_time_data = sig.lfilter(
             ba_coefficients[0], ba_coefficients[1], x=time_data, axis=0
-- 
2.43.0


From 30fc3d5f8705c539d8343778f0c294fc4279b776 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:21 +0000
Subject: [PATCH 064/225] fix: decimating and interpolating leave the filter
 unchanged

---
 dsptoolbox/classes/filter.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/dsptoolbox/classes/filter.py b/dsptoolbox/classes/filter.py
index 7de33af..fd25839 100644
--- a/dsptoolbox/classes/filter.py
+++ b/dsptoolbox/classes/filter.py
@@ -783,9 +783,8 @@ class Filter:
         if self.is_fir:
             polyphase = True
         else:
-            if not hasattr(self, "ba"):
-                self.ba: list = list(sig.sos2tf(self.sos))
             polyphase = False
+        ba = list(self.get_coefficients(FilterCoefficientsType.Ba))
 
         # Check if down- or upsampling is required
         if fraction[0] == 1:
@@ -795,7 +794,7 @@ class Filter:
             new_time_data = _filter_and_downsample(
                 time_data=signal.time_data,
                 down_factor=fraction[1],
-                ba_coefficients=self.ba,
+                ba_coefficients=ba,
                 polyphase=polyphase,
             )
         elif fraction[1] == 1:
@@ -806,7 +805,7 @@ class Filter:
             new_time_data = _filter_and_upsample(
                 time_data=signal.time_data,
                 up_factor=fraction[0],
-                ba_coefficients=self.ba,
+                ba_coefficients=ba,
                 polyphase=polyphase,
             )
 
-- 
2.43.0


From a52d447eef51a6c4dd3800cf3b30bae9a1a44b5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:21 +0000
Subject: [PATCH 065/225] fix: collapsing a multiband signal leaves its bands
 unchanged

---
 dsptoolbox/classes/multibandsignal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dsptoolbox/classes/multibandsignal.py b/dsptoolbox/classes/multibandsignal.py
index 0a87964..495d454 100644
--- a/dsptoolbox/classes/multibandsignal.py
+++ b/dsptoolbox/classes/multibandsignal.py
@@ -416,7 +416,7 @@ class MultiBandSignal:
             self.same_sampling_rate
         ), "Collapsing is only available for same sampling rate bands"
         if self.bands[0].time_data_imaginary is None:
-            initial = self.bands[0].time_data
+            initial = self.bands[0].time_data.copy()
             for n in range(1, len(self.bands)):
                 initial += self.bands[n].time_data
         else:
-- 
2.43.0


From 1e0006dc7f9592b77a25f1e2a84cc1d9d4e85b33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:40 +0000
Subject: [PATCH 066/225] fix: bands joined to a signal keep their level

---
 dsptoolbox/classes/multibandsignal.py | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/dsptoolbox/classes/multibandsignal.py b/dsptoolbox/classes/multibandsignal.py
index 495d454..6001900 100644
--- a/dsptoolbox/classes/multibandsignal.py
+++ b/dsptoolbox/classes/multibandsignal.py
@@ -295,10 +295,6 @@ class MultiBandSignal:
             else [b.length_samples for b in self.bands]
         )
 
-    def __get_type_of_signal_bands(self):
-        """Return type of saved bands (either Signal or ImpulseResponse)."""
-        return type(self.bands[0])
-
     def __len__(self):
         return len(self.bands)
 
@@ -499,9 +495,7 @@ class MultiBandSignal:
                         self.bands[n].time_data[:, channel]
                         + self.bands[n].time_data_imaginary[:, channel] * 1j
                     )
-            return self.__get_type_of_signal_bands()(
-                None, new_time_data, self.sampling_rate_hz
-            )
+            return self.bands[0].copy_with_new_time_data(new_time_data)
 
         new_time_data = []
         sr = []
-- 
2.43.0


From ef6ac085c546ec854f666abdc80036c4a868a135 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:56 +0000
Subject: [PATCH 067/225] fix: a multiband signal stays as it was when new
 bands are refused

---
 dsptoolbox/classes/multibandsignal.py | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/dsptoolbox/classes/multibandsignal.py b/dsptoolbox/classes/multibandsignal.py
index 6001900..b6e2f87 100644
--- a/dsptoolbox/classes/multibandsignal.py
+++ b/dsptoolbox/classes/multibandsignal.py
@@ -146,14 +146,14 @@ class MultiBandSignal:
         assert type(new_bands) is list, "bands has to be a list"
         if new_bands:
             # Check length and number of channels
-            self.__number_of_channels = new_bands[0].number_of_channels
+            number_of_channels = new_bands[0].number_of_channels
             sr = []
             complex_data = new_bands[0].time_data_imaginary is not None
             for s in new_bands:
                 assert isinstance(s, Signal), (
                     f"{type(s)} is not a valid " + "band type. Use Signal objects"
                 )
-                assert s.number_of_channels == self.number_of_channels, (
+                assert s.number_of_channels == number_of_channels, (
                     "Signals have different number of channels. This "
                     + "behaviour is not supported"
                 )
@@ -162,15 +162,11 @@ class MultiBandSignal:
                     + "not. This behavior is not supported."
                 )
                 sr.append(s.sampling_rate_hz)
-            if self.same_sampling_rate:
-                self.sampling_rate_hz = new_bands[0].sampling_rate_hz
-                expected_length_samples = new_bands[0].length_samples
-            else:
-                self.sampling_rate_hz = sr
             # Check sampling rate and duration
             if self.same_sampling_rate:
+                expected_length_samples = new_bands[0].length_samples
                 for s in new_bands:
-                    assert s.sampling_rate_hz == self.sampling_rate_hz, (
+                    assert s.sampling_rate_hz == sr[0], (
                         "Not all Signals have the same sampling rate. "
                         + "If you wish to create a multirate system, set "
                         + "same_sampling_rate to False"
@@ -180,6 +176,9 @@ class MultiBandSignal:
                         + "This behaviour is not supported if there is a "
                         + "constant sampling rate"
                     )
+            # All bands are valid
+            self.__number_of_channels = number_of_channels
+            self.sampling_rate_hz = sr[0] if self.same_sampling_rate else sr
         self.__bands: list[Signal] = new_bands
 
     @property
-- 
2.43.0


From d74acfd3ca4b757e92fbd5775d3282dd352a06b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:56 +0000
Subject: [PATCH 068/225] fix: a filter bank stays as it was when new filters
 are refused

---
 dsptoolbox/classes/filterbank.py | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/dsptoolbox/classes/filterbank.py b/dsptoolbox/classes/filterbank.py
index 07f54c1..ea6b63c 100644
--- a/dsptoolbox/classes/filterbank.py
+++ b/dsptoolbox/classes/filterbank.py
@@ -223,21 +223,19 @@ class FilterBank:
             new_filters = list(new_filters)
         assert type(new_filters) is list, "Filters have to be passed as a list"
         if new_filters:
-            if self.same_sampling_rate:
-                self.sampling_rate_hz = new_filters[0].sampling_rate_hz
-            else:
-                sr = []
-                for f in new_filters:
-                    sr.append(f.sampling_rate_hz)
-                self.sampling_rate_hz = sr
             for ind, f in enumerate(new_filters):
                 assert (
                     type(f) is Filter
                 ), f"Object at index {ind} is not a supported Filter"
                 if self.same_sampling_rate:
                     assert (
-                        f.sampling_rate_hz == self.sampling_rate_hz
+                        f.sampling_rate_hz == new_filters[0].sampling_rate_hz
                     ), "Sampling rates do not match"
+            # All filters are valid
+            if self.same_sampling_rate:
+                self.sampling_rate_hz = new_filters[0].sampling_rate_hz
+            else:
+                self.sampling_rate_hz = [f.sampling_rate_hz for f in new_filters]
         self.__filters = new_filters
 
     @property
-- 
2.43.0


From 3a172f7a46debfc0a032ee2513e5ee6f15e60115 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:56 +0000
Subject: [PATCH 069/225] fix: summed crossover output of signals with odd
 length

---
 dsptoolbox/filterbanks/_filterbank.py | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/dsptoolbox/filterbanks/_filterbank.py b/dsptoolbox/filterbanks/_filterbank.py
index 9ea6fb3..fcfea0e 100644
--- a/dsptoolbox/filterbanks/_filterbank.py
+++ b/dsptoolbox/filterbanks/_filterbank.py
@@ -1253,20 +1253,14 @@ def _crossover_downsample(
                 new_sampling_rate_hz=signal.sampling_rate_hz // down_factor,
             )
         return out_sig
-    new_time_data = np.zeros(
-        (
-            signal.time_data.shape[0] // down_factor,
-            signal.number_of_channels,
-            n_filt,
-        )
-    )
+    new_time_data = 0.0
     for n in range(n_filt):
         s = filters[n].filter_and_resample_signal(
             signal,
             new_sampling_rate_hz=signal.sampling_rate_hz // down_factor,
         )
-        new_time_data[:, :, n] = s.time_data
-    out_sig = signal.copy_with_new_time_data(np.sum(new_time_data, axis=-1))
+        new_time_data = new_time_data + s.time_data
+    out_sig = signal.copy_with_new_time_data(new_time_data)
     out_sig.sampling_rate_hz = signal.sampling_rate_hz // down_factor
     return out_sig
 
-- 
2.43.0


From d0b8e577d932612242a8ad79c1c911519c15800f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:56 +0000
Subject: [PATCH 070/225] fix: summed plot of decimating crossovers

---
 dsptoolbox/filterbanks/_filterbank.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/dsptoolbox/filterbanks/_filterbank.py b/dsptoolbox/filterbanks/_filterbank.py
index fcfea0e..7c1d591 100644
--- a/dsptoolbox/filterbanks/_filterbank.py
+++ b/dsptoolbox/filterbanks/_filterbank.py
@@ -1061,7 +1061,14 @@ class BaseCrossover(FilterBank):
             bs.spectrum_method = SpectrumMethod.FFT
             f, sp = bs.get_spectrum()
             f, sp = _get_normalized_spectrum(
-                f, np.squeeze(sp), f_range_hz=range_hz, normalize=None
+                f=f,
+                spectra=np.squeeze(sp),
+                is_amplitude_scaling=bs.spectrum_scaling.is_amplitude_scaling(),
+                f_range_hz=range_hz,
+                normalize=MagnitudeNormalization.NoNormalization,
+                smoothing=0,
+                phase=False,
+                calibrated_data=False,
             )
             fig, ax = general_plot(
                 f,
-- 
2.43.0


From d98d2487bee785f317ebae2d5ebf1557eb1a8045 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:56 +0000
Subject: [PATCH 071/225] fix: gammatone reconstruction is real and does not
 wrap around

---
 dsptoolbox/filterbanks/_filterbank.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/dsptoolbox/filterbanks/_filterbank.py b/dsptoolbox/filterbanks/_filterbank.py
index 7c1d591..da96550 100644
--- a/dsptoolbox/filterbanks/_filterbank.py
+++ b/dsptoolbox/filterbanks/_filterbank.py
@@ -826,18 +826,20 @@ class GammaToneFilterBank(FilterBank):
         else:
             time = np.moveaxis(time, -1, 1)
 
-        reconstructed_sig = signal.bands[0].copy()
-
         # apply phase shift, delay, and gain
         for bb, (phase_factor, delay, gain) in enumerate(
             zip(self._phase_factors, self._delays, self._gains)
         ):
-            time[bb] = np.real(np.roll(time[bb], delay, axis=-1) * phase_factor) * gain
+            delayed = np.roll(time[bb], delay, axis=-1)
+            delayed[..., :delay] = 0.0  # Samples of the end do not wrap around
+            time[bb] = np.real(delayed * phase_factor) * gain
 
         # sum and squeeze first axis (the signal is already real, but the data
         # type is still complex)
-        reconstructed_sig.time_data = np.sum(np.real(time), axis=0)
-        return reconstructed_sig
+        new_time_data = np.sum(np.real(time), axis=0)
+        return signal.bands[0].copy_with_new_time_data(
+            new_time_data.reshape(-1, shape[1]).T
+        )
 
 
 class BaseCrossover(FilterBank):
-- 
2.43.0


From 4ad3ea03d70094e0a9007f3008fbaaf64447a4a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:56 +0000
Subject: [PATCH 072/225] fix: octave bands leave the given frequency range
 unchanged

---
 dsptoolbox/filterbanks/filterbanks.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/dsptoolbox/filterbanks/filterbanks.py b/dsptoolbox/filterbanks/filterbanks.py
index 7580e27..321ae7c 100644
--- a/dsptoolbox/filterbanks/filterbanks.py
+++ b/dsptoolbox/filterbanks/filterbanks.py
@@ -378,8 +378,7 @@ def fractional_octave_bands(
     assert (
         sampling_rate_hz is not None
     ), "A sampling rate must be passed for the filter bank"
-    frequency_range_hz = np.atleast_1d(np.squeeze(frequency_range_hz))
-    frequency_range_hz.sort()
+    frequency_range_hz = np.sort(np.atleast_1d(np.squeeze(frequency_range_hz)))
     assert (
         len(frequency_range_hz) == 2
     ), "Frequency range must contain exactly two entries"
-- 
2.43.0


From ea34a86c062c8334f35e0c2e0dfdf14904864f0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:56 +0000
Subject: [PATCH 073/225] fix: zero-phase crossovers of second order sum to a
 flat response

---
 dsptoolbox/filterbanks/_filterbank.py | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/dsptoolbox/filterbanks/_filterbank.py b/dsptoolbox/filterbanks/_filterbank.py
index da96550..cbde05d 100644
--- a/dsptoolbox/filterbanks/_filterbank.py
+++ b/dsptoolbox/filterbanks/_filterbank.py
@@ -284,13 +284,23 @@ class LRFilterBank:
         elif zero_phase:
             for cn in range(self.number_of_cross):
                 # Select SOS
-                factor = 1 if self.order[cn] % 2 == 1 or self.order[cn] == 2 else 2
-                valid_dim = self.sos[cn][0].shape[0] // factor
+                if self.order[cn] == 2:
+                    # First-order sections, whose squared magnitude is that of
+                    # the second-order crossover
+                    lp, hp = [
+                        butter(
+                            1, self.freqs[cn], t, fs=self.sampling_rate_hz, output="sos"
+                        )
+                        for t in ("lowpass", "highpass")
+                    ]
+                else:
+                    factor = 1 if self.order[cn] % 2 == 1 else 2
+                    valid_dim = self.sos[cn][0].shape[0] // factor
+                    lp = self.sos[cn][0][:valid_dim, ...]
+                    hp = self.sos[cn][1][:valid_dim, ...]
                 # Filter
-                new_time_data[:, :, cn] = sosfiltfilt(
-                    self.sos[cn][0][:valid_dim, ...], in_sig, axis=0
-                )
-                in_sig = sosfiltfilt(self.sos[cn][1][:valid_dim, ...], in_sig, axis=0)
+                new_time_data[:, :, cn] = sosfiltfilt(lp, in_sig, axis=0)
+                in_sig = sosfiltfilt(hp, in_sig, axis=0)
             # Last high frequency component
             new_time_data[:, :, cn + 1] = in_sig
 
-- 
2.43.0


From 7df81a82fd7a56fc0037dbafcaac83ba8ca54737 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:48 +0000
Subject: [PATCH 074/225] fix: gammatone delays and phase factors come from the
 impulse response

---
 dsptoolbox/filterbanks/_filterbank.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/dsptoolbox/filterbanks/_filterbank.py b/dsptoolbox/filterbanks/_filterbank.py
index cbde05d..4d88cfc 100644
--- a/dsptoolbox/filterbanks/_filterbank.py
+++ b/dsptoolbox/filterbanks/_filterbank.py
@@ -724,7 +724,6 @@ class GammaToneFilterBank(FilterBank):
         # apply filterbank to impulse to estimate the required values
         d = dirac(
             length_samples=self.sampling_rate_hz // 2,
-            delay_samples=delay_samples + 3,
             sampling_rate_hz=self.sampling_rate_hz,
         )
         d = self.filter_signal(d, mode=FilterBankMode.Parallel)
-- 
2.43.0


From 749d364f9e5ed9dbd88afc4099cf9d4ac60b0978 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:54 +0000
Subject: [PATCH 075/225] fix: spectra can have fewer frequency bins than
 channels

---
 dsptoolbox/classes/spectrum.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dsptoolbox/classes/spectrum.py b/dsptoolbox/classes/spectrum.py
index 3b19d30..d5c1e98 100644
--- a/dsptoolbox/classes/spectrum.py
+++ b/dsptoolbox/classes/spectrum.py
@@ -254,7 +254,7 @@ class Spectrum(MultichannelData):
         """
         data = np.atleast_2d(new_data)
         assert data.ndim == 2, "Spectral data must have two dimensions"
-        if data.shape[0] < data.shape[1]:
+        if data.shape[0] != self.number_frequency_bins:
             data = data.T
         assert (
             data.shape[0] == self.number_frequency_bins
-- 
2.43.0


From 7916b400339eeb54a7b144226db43b30a5b73209 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:54 +0000
Subject: [PATCH 076/225] fix: edge handling of interpolated spectra in all
 domains and schemes

---
 dsptoolbox/classes/spectrum.py | 32 +++++++++++++-------------------
 1 file changed, 13 insertions(+), 19 deletions(-)

diff --git a/dsptoolbox/classes/spectrum.py b/dsptoolbox/classes/spectrum.py
index d5c1e98..f0ee1c6 100644
--- a/dsptoolbox/classes/spectrum.py
+++ b/dsptoolbox/classes/spectrum.py
@@ -590,14 +590,13 @@ class Spectrum(MultichannelData):
             interp_data = np.abs(self.spectral_data)
             interp_data_imag = np.unwrap(np.angle(self.spectral_data), axis=0)
 
-        # Get edge values
-        if self.__int_edges == InterpolationEdgeHandling.ZeroPad:
-            left_val = right_val = 0.0
-        elif self.__int_edges == InterpolationEdgeHandling.OnePad:
-            left_val = right_val = 1.0
-        else:  # "extend"
-            left_val = interp_data[0, ...]
-            right_val = interp_data[-1, ...]
+        # Values outside the range are those of the edges ("extend")
+        inds_outside = inds_outside_left | inds_outside_right
+        requested_frequency = np.clip(
+            requested_frequency,
+            self.frequency_vector_hz[0],
+            self.frequency_vector_hz[-1],
+        )
 
         # Interpolation and filling edges
         if self.__int_scheme != InterpolationScheme.Linear:
@@ -620,11 +619,6 @@ class Spectrum(MultichannelData):
                         requested_frequency
                     )
                 )
-
-            if len(inds_outside_left) > 0:
-                output[inds_outside_left, :] = left_val
-            if len(inds_outside_right) > 0:
-                output[inds_outside_right, :] = right_val
         else:
             output = np.zeros(
                 (len(requested_frequency), self.number_of_channels),
@@ -635,8 +629,6 @@ class Spectrum(MultichannelData):
                     requested_frequency,
                     self.frequency_vector_hz,
                     interp_data[:, ch],
-                    left=left_val,
-                    right=right_val,
                 )
                 # Complex handling
                 if self.__int_domain == InterpolationDomain.Complex:
@@ -644,8 +636,6 @@ class Spectrum(MultichannelData):
                         requested_frequency,
                         self.frequency_vector_hz,
                         interp_data_imag[:, ch],
-                        left=left_val,
-                        right=right_val,
                     )
                 elif self.__int_domain == InterpolationDomain.MagnitudePhase:
                     output[:, ch] = output[:, ch] * np.exp(
@@ -654,11 +644,15 @@ class Spectrum(MultichannelData):
                             requested_frequency,
                             self.frequency_vector_hz,
                             interp_data_imag[:, ch],
-                            left=left_val,
-                            right=right_val,
                         )
                     )
 
+        # Fill edges
+        if self.__int_edges == InterpolationEdgeHandling.ZeroPad:
+            output[inds_outside, :] = 0.0
+        elif self.__int_edges == InterpolationEdgeHandling.OnePad:
+            output[inds_outside, :] = 1.0
+
         # Output type
         if output_type == SpectrumType.Complex:
             return output
-- 
2.43.0


From da41410bfc9d13a173686e3841ff6a9ab5cc3a4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:54 +0000
Subject: [PATCH 077/225] fix: complex interpolation of spectra with a
 magnitude or power domain

---
 dsptoolbox/classes/spectrum.py | 44 ++++++++++++++++------------------
 1 file changed, 20 insertions(+), 24 deletions(-)

diff --git a/dsptoolbox/classes/spectrum.py b/dsptoolbox/classes/spectrum.py
index f0ee1c6..bbd8da3 100644
--- a/dsptoolbox/classes/spectrum.py
+++ b/dsptoolbox/classes/spectrum.py
@@ -474,15 +474,6 @@ class Spectrum(MultichannelData):
         self
 
         """
-        self.set_interpolator_parameters(
-            (
-                InterpolationDomain.Power
-                if self.is_magnitude
-                else InterpolationDomain.MagnitudePhase
-            ),
-            self.__int_scheme,
-            self.__int_edges,
-        )
         new_sp = self.get_interpolated_spectrum(
             new_freqs_hz,
             (SpectrumType.Magnitude if self.is_magnitude else SpectrumType.Complex),
@@ -572,21 +563,26 @@ class Spectrum(MultichannelData):
                 + "does not support it"
             )
 
+        # Complex output always needs an interpolation with phase
+        domain = self.__int_domain
+        if output_type == SpectrumType.Complex and not domain.is_complex():
+            domain = InterpolationDomain.MagnitudePhase
+
         # Input for interpolation depending on domain
-        if self.__int_domain == InterpolationDomain.Power:
+        if domain == InterpolationDomain.Power:
             if self.is_magnitude:
                 interp_data = self.spectral_data**2.0
             else:
                 interp_data = np.abs(self.spectral_data) ** 2.0
-        elif self.__int_domain == InterpolationDomain.Magnitude:
+        elif domain == InterpolationDomain.Magnitude:
             if self.is_magnitude:
                 interp_data = self.spectral_data
             else:
                 interp_data = np.abs(self.spectral_data)
-        elif self.__int_domain == InterpolationDomain.Complex:
+        elif domain == InterpolationDomain.Complex:
             interp_data = np.real(self.spectral_data)
             interp_data_imag = np.imag(self.spectral_data)
-        elif self.__int_domain == InterpolationDomain.MagnitudePhase:
+        elif domain == InterpolationDomain.MagnitudePhase:
             interp_data = np.abs(self.spectral_data)
             interp_data_imag = np.unwrap(np.angle(self.spectral_data), axis=0)
 
@@ -608,11 +604,11 @@ class Spectrum(MultichannelData):
             output = func(self.frequency_vector_hz, interp_data, axis=0)(
                 requested_frequency
             )
-            if self.__int_domain == InterpolationDomain.Complex:
+            if domain == InterpolationDomain.Complex:
                 output = output + 1j * func(
                     self.frequency_vector_hz, interp_data_imag, axis=0
                 )(requested_frequency)
-            elif self.__int_domain == InterpolationDomain.MagnitudePhase:
+            elif domain == InterpolationDomain.MagnitudePhase:
                 output = output * np.exp(
                     1j
                     * func(self.frequency_vector_hz, interp_data_imag, axis=0)(
@@ -622,7 +618,7 @@ class Spectrum(MultichannelData):
         else:
             output = np.zeros(
                 (len(requested_frequency), self.number_of_channels),
-                dtype=(np.complex128 if self.__int_domain.is_complex() else np.float64),
+                dtype=(np.complex128 if domain.is_complex() else np.float64),
             )
             for ch in range(output.shape[1]):
                 output[:, ch] = np.interp(
@@ -631,13 +627,13 @@ class Spectrum(MultichannelData):
                     interp_data[:, ch],
                 )
                 # Complex handling
-                if self.__int_domain == InterpolationDomain.Complex:
+                if domain == InterpolationDomain.Complex:
                     output[:, ch] += 1j * np.interp(
                         requested_frequency,
                         self.frequency_vector_hz,
                         interp_data_imag[:, ch],
                     )
-                elif self.__int_domain == InterpolationDomain.MagnitudePhase:
+                elif domain == InterpolationDomain.MagnitudePhase:
                     output[:, ch] = output[:, ch] * np.exp(
                         1j
                         * np.interp(
@@ -657,20 +653,20 @@ class Spectrum(MultichannelData):
         if output_type == SpectrumType.Complex:
             return output
         elif output_type == SpectrumType.Db:
-            if self.__int_domain.is_complex():
+            if domain.is_complex():
                 return to_db(np.abs(output), True)
-            return to_db(output, self.__int_domain.is_linear())
+            return to_db(output, domain.is_linear())
         elif output_type == SpectrumType.Power:
-            if self.__int_domain.is_complex():
+            if domain.is_complex():
                 return np.abs(output) ** 2.0
-            elif self.__int_domain.is_linear():
+            elif domain.is_linear():
                 return output**2.0
             else:  # "power"
                 return output
         elif output_type == SpectrumType.Magnitude:
-            if self.__int_domain.is_complex():
+            if domain.is_complex():
                 return np.abs(output)
-            elif self.__int_domain.is_linear():
+            elif domain.is_linear():
                 return output
             else:  # "power"
                 return output**0.5
-- 
2.43.0


From 1a9958717aed5facddcdad077722f40cccf1aaf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:54 +0000
Subject: [PATCH 078/225] fix: interpolated magnitudes and powers are not
 negative

---
 dsptoolbox/classes/spectrum.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dsptoolbox/classes/spectrum.py b/dsptoolbox/classes/spectrum.py
index bbd8da3..88a799c 100644
--- a/dsptoolbox/classes/spectrum.py
+++ b/dsptoolbox/classes/spectrum.py
@@ -643,6 +643,10 @@ class Spectrum(MultichannelData):
                         )
                     )
 
+        # Magnitude and power are never negative
+        if not domain.is_complex():
+            output = np.clip(output, 0.0, None)
+
         # Fill edges
         if self.__int_edges == InterpolationEdgeHandling.ZeroPad:
             output[inds_outside, :] = 0.0
-- 
2.43.0


From d255d7090b7b798a026b32404a9199ec1c4b5305 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:54 +0000
Subject: [PATCH 079/225] fix: trimming spectra between bins

---
 dsptoolbox/classes/spectrum.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/dsptoolbox/classes/spectrum.py b/dsptoolbox/classes/spectrum.py
index 88a799c..c23bb78 100644
--- a/dsptoolbox/classes/spectrum.py
+++ b/dsptoolbox/classes/spectrum.py
@@ -1041,11 +1041,12 @@ class Spectrum(MultichannelData):
                 ind_high += 1
                 ind_high = min(ind_high, self.number_frequency_bins)
             if f_lower_hz is not None:
-                if self.frequency_vector_hz[ind_low] != f_lower_hz:
+                if f_lower_hz not in self.frequency_vector_hz:
                     ind_low -= 1
                     ind_low = max(ind_low, 0)
-        else:
-            if f_lower_hz is not None:
-                ind_low += 1
+        elif f_lower_hz is not None:
+            ind_low = int(
+                np.searchsorted(self.frequency_vector_hz, f_lower_hz, side="right")
+            )
         assert ind_low < ind_high, "Slice is invalid"
         return slice(ind_low, ind_high)
-- 
2.43.0


From e148a0a4d86fdfb73f4626d192f5b70f6097cb1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:54 +0000
Subject: [PATCH 080/225] fix: coherence of a spectrum follows its bins and
 channels

---
 dsptoolbox/classes/spectrum.py | 34 ++++++++++++++++++++++++++++++++--
 1 file changed, 32 insertions(+), 2 deletions(-)

diff --git a/dsptoolbox/classes/spectrum.py b/dsptoolbox/classes/spectrum.py
index c23bb78..4d7d920 100644
--- a/dsptoolbox/classes/spectrum.py
+++ b/dsptoolbox/classes/spectrum.py
@@ -430,8 +430,30 @@ class Spectrum(MultichannelData):
         s = self.__freqs_to_slice(f_lower_hz, f_upper_hz, inclusive)
         self.frequency_vector_hz = self.frequency_vector_hz[s]
         self.spectral_data = self.spectral_data[s, ...]
+        if self.has_coherence:
+            self.coherence = self.coherence[s, ...]
+        return self
+
+    def remove_channel(self, channel_number: int = -1):
+        super().remove_channel(channel_number)
+        if self.has_coherence:
+            self.coherence = np.delete(self.coherence, channel_number, axis=-1)
+        return self
+
+    def swap_channels(self, new_order):
+        super().swap_channels(new_order)
+        if self.has_coherence:
+            new_order = np.atleast_1d(np.asarray(new_order).squeeze())
+            self.coherence = self.coherence[:, new_order]
         return self
 
+    def get_channels(self, channels: int | ArrayLike):
+        new_spectrum = super().get_channels(channels)
+        if self.has_coherence:
+            channels = np.atleast_1d(np.asarray(channels).squeeze())
+            new_spectrum.set_coherence(self.coherence[:, channels])
+        return new_spectrum
+
     def sum_channels(self, power_sum: bool = True) -> "Spectrum":
         """Sum all channels of the spectrum and return new spectrum with single channel.
 
@@ -478,6 +500,14 @@ class Spectrum(MultichannelData):
             new_freqs_hz,
             (SpectrumType.Magnitude if self.is_magnitude else SpectrumType.Complex),
         )
+        if self.has_coherence:
+            self.coherence = np.stack(
+                [
+                    np.interp(new_freqs_hz, self.frequency_vector_hz, coh)
+                    for coh in self.coherence.T
+                ],
+                axis=1,
+            )
         self.frequency_vector_hz = new_freqs_hz
         self.spectral_data = new_sp
         return self
@@ -1010,8 +1040,8 @@ class Spectrum(MultichannelData):
             self.__int_scheme,
             self.__int_edges,
         )
-        # Copy coherence if it exists
-        if self.has_coherence:
+        # Copy coherence if it exists and still fits the data
+        if self.has_coherence and data.shape == self.coherence.shape:
             new_spectrum.set_coherence(self.coherence)
         return new_spectrum
 
-- 
2.43.0


From a520765dc87594c64db2ed6e873e058b6d423051 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:54 +0000
Subject: [PATCH 081/225] fix: power sum of spectra with complex interpolation

---
 dsptoolbox/classes/spectrum.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/dsptoolbox/classes/spectrum.py b/dsptoolbox/classes/spectrum.py
index 4d7d920..ed26df3 100644
--- a/dsptoolbox/classes/spectrum.py
+++ b/dsptoolbox/classes/spectrum.py
@@ -1034,9 +1034,13 @@ class Spectrum(MultichannelData):
     ) -> "Spectrum":
         """Create a copy with new spectral data."""
         new_spectrum = Spectrum(self.frequency_vector_hz, data)
-        # Copy interpolator parameters
+        # Copy interpolator parameters (the new data might not be complex)
         new_spectrum.set_interpolator_parameters(
-            self.__int_domain,
+            (
+                InterpolationDomain.Power
+                if new_spectrum.is_magnitude and self.__int_domain.is_complex()
+                else self.__int_domain
+            ),
             self.__int_scheme,
             self.__int_edges,
         )
-- 
2.43.0


From b04d906ec8e4e155e5c4895f7deda6ca1fadb4fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:26 +0000
Subject: [PATCH 082/225] fix: coherence is not shared between spectra

---
 dsptoolbox/classes/spectrum.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dsptoolbox/classes/spectrum.py b/dsptoolbox/classes/spectrum.py
index ed26df3..4b5b7bd 100644
--- a/dsptoolbox/classes/spectrum.py
+++ b/dsptoolbox/classes/spectrum.py
@@ -906,7 +906,7 @@ class Spectrum(MultichannelData):
             coherence.shape == self.spectral_data.shape
         ), "Length of signals and given coherence do not match"
         assert not np.iscomplexobj(coherence), "Coherence cannot be complex"
-        self.coherence = coherence
+        self.coherence = coherence.copy()
 
     def plot_magnitude(
         self,
-- 
2.43.0


From 88921b12ecbfdc872c155e3b7e32634ebc08199f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:26 +0000
Subject: [PATCH 083/225] fix: signals from spectra keep odd lengths, levels
 and frequencies

---
 dsptoolbox/classes/spectrum.py | 39 +++++++++++++++++-----------------
 1 file changed, 20 insertions(+), 19 deletions(-)

diff --git a/dsptoolbox/classes/spectrum.py b/dsptoolbox/classes/spectrum.py
index 4b5b7bd..18b39fc 100644
--- a/dsptoolbox/classes/spectrum.py
+++ b/dsptoolbox/classes/spectrum.py
@@ -365,12 +365,14 @@ class Spectrum(MultichannelData):
         """
         assert not self.is_magnitude, "Spectrum must be complex"
 
-        def __td_from_spec(spec, length_seconds, sampling_rate_hz) -> Signal:
-            time_data = np.fft.irfft(spec, axis=0)
+        def __td_from_spec(spec, n, length_seconds, sampling_rate_hz) -> Signal:
+            time_data = np.fft.irfft(spec, n=n, axis=0)
             if length_seconds is not None:
                 length_samples = int(length_seconds * sampling_rate_hz + 0.5)
                 time_data = _pad_trim(time_data, length_samples)
-            return Signal.from_time_data(time_data, sampling_rate_hz)
+            return Signal.from_time_data(
+                time_data, sampling_rate_hz, constrain_amplitude=False
+            )
 
         if self.frequency_vector_type == FrequencySpacing.Linear:
             delta_f = self.frequency_vector_hz[1] - self.frequency_vector_hz[0]
@@ -378,31 +380,30 @@ class Spectrum(MultichannelData):
                 abs(sampling_rate_hz / 2 - self.frequency_vector_hz[-1]) > delta_f
             )
             condition_start = not np.isclose(self.frequency_vector_hz[0], 0.0)
+            # Number of samples of the underlying time signal (even or odd)
+            n_samples = int(np.round(sampling_rate_hz / delta_f))
 
             if not (condition_sampling_rate or condition_start):
                 return __td_from_spec(
-                    self.spectral_data, length_seconds, sampling_rate_hz
+                    self.spectral_data, n_samples, length_seconds, sampling_rate_hz
                 )
-
-            requested_freqs = np.arange(
-                0.0, sampling_rate_hz / 2 + delta_f / 2.0, delta_f
-            )
         else:
             assert length_seconds is not None, "A length must be provided"
-
-            requested_freqs = np.fft.rfftfreq(
-                int(length_seconds * sampling_rate_hz + 0.5),
-                1 / sampling_rate_hz,
+            n_samples = int(length_seconds * sampling_rate_hz + 0.5)
+
+        spectrum = (
+            self.copy()
+            .set_interpolator_parameters(
+                InterpolationDomain.MagnitudePhase,
+                InterpolationScheme.Pchip,
+                InterpolationEdgeHandling.ZeroPad,
+            )
+            .get_interpolated_spectrum(
+                np.fft.rfftfreq(n_samples, 1 / sampling_rate_hz), SpectrumType.Complex
             )
-
-        self.set_interpolator_parameters(
-            InterpolationDomain.MagnitudePhase,
-            InterpolationScheme.Pchip,
-            InterpolationEdgeHandling.ZeroPad,
         )
-        spectrum = self.get_interpolated_spectrum(requested_freqs, SpectrumType.Complex)
 
-        return __td_from_spec(spectrum, length_seconds, sampling_rate_hz)
+        return __td_from_spec(spectrum, n_samples, length_seconds, sampling_rate_hz)
 
     def trim(
         self,
-- 
2.43.0


From 48d6a1aaca2b156eb68daf7a9f446a27c6f3f10d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:26 +0000
Subject: [PATCH 084/225] fix: octave smoothing of spectra with arbitrary
 frequencies

---
 dsptoolbox/classes/spectrum.py | 13 ++++---------
 1 file changed, 4 insertions(+), 9 deletions(-)

diff --git a/dsptoolbox/classes/spectrum.py b/dsptoolbox/classes/spectrum.py
index 18b39fc..b5bed78 100644
--- a/dsptoolbox/classes/spectrum.py
+++ b/dsptoolbox/classes/spectrum.py
@@ -865,15 +865,10 @@ class Spectrum(MultichannelData):
         ):
             data = self.spectral_data
         else:  # Other: map to linear and interpolate
-            data = self.get_interpolated_spectrum(
-                np.linspace(
-                    self.frequency_vector_hz[0],
-                    self.frequency_vector_hz[-1],
-                    self.frequency_vector_hz[-1] - self.frequency_vector_hz[0],
-                    endpoint=True,
-                ),
-                (SpectrumType.Magnitude if self.is_magnitude else SpectrumType.Complex),
-            )
+            start, stop = self.frequency_vector_hz[[0, -1]]
+            n_bins = max(int(stop - start + 0.5) + 1, 2)
+            self.resample(np.linspace(start, stop, n_bins, endpoint=True))
+            data = self.spectral_data
 
         if self.is_magnitude:
             self.spectral_data = fractional_octave_smoothing(
-- 
2.43.0


From cc080da2a011ac4d0f0f71a89b80662735ecb119 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:28 +0000
Subject: [PATCH 085/225] fix: octave smoothing of linear spectra that do not
 start at 0 Hz

---
 dsptoolbox/classes/spectrum.py | 27 +++++++++++++++------------
 1 file changed, 15 insertions(+), 12 deletions(-)

diff --git a/dsptoolbox/classes/spectrum.py b/dsptoolbox/classes/spectrum.py
index b5bed78..df37c0b 100644
--- a/dsptoolbox/classes/spectrum.py
+++ b/dsptoolbox/classes/spectrum.py
@@ -870,21 +870,24 @@ class Spectrum(MultichannelData):
             self.resample(np.linspace(start, stop, n_bins, endpoint=True))
             data = self.spectral_data
 
+        # Linear data is smoothed as if it started at 0 Hz
+        n_pad = 0
+        if beta is None:
+            f = self.frequency_vector_hz
+            n_pad = int(np.round(f[0] / (f[-1] - f[-2])))
+
+        def smooth(vector):
+            vector = np.pad(vector, ((n_pad, 0), (0, 0)), mode="edge")
+            return fractional_octave_smoothing(
+                vector, beta, octave_fraction, window_type.to_scipy_format()
+            )[n_pad:, ...]
+
         if self.is_magnitude:
-            self.spectral_data = fractional_octave_smoothing(
-                data, beta, octave_fraction, window_type.to_scipy_format()
-            )
+            self.spectral_data = smooth(data)
             return self
 
-        mag = fractional_octave_smoothing(
-            np.abs(data), beta, octave_fraction, window_type.to_scipy_format()
-        )
-        ph = fractional_octave_smoothing(
-            np.unwrap(np.angle(data), axis=0),
-            beta,
-            octave_fraction,
-            window_type.to_scipy_format(),
-        )
+        mag = smooth(np.abs(data))
+        ph = smooth(np.unwrap(np.angle(data), axis=0))
         self.spectral_data = mag * np.exp(1j * ph)
         return self
 
-- 
2.43.0


From fae267f8f1ed3357986bce6154ab02a03b8cd76e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:56 +0000
Subject: [PATCH 086/225] fix: from_complex_cepstrum keeps the level of the
 signal

---
 dsptoolbox/transforms/transforms.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dsptoolbox/transforms/transforms.py b/dsptoolbox/transforms/transforms.py
index d1ce64d..e65cbb3 100644
--- a/dsptoolbox/transforms/transforms.py
+++ b/dsptoolbox/transforms/transforms.py
@@ -107,6 +107,7 @@ def from_complex_cepstrum(
     return Signal.from_time_data(
         np.fft.ifft(np.exp(np.fft.fft(cepstrum, axis=0)), axis=0).real,
         sampling_rate_hz,
+        constrain_amplitude=False,
     )
 
 
-- 
2.43.0


From 539e5a48df1f5afd7f2ce8a8237d8545197840e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:56 +0000
Subject: [PATCH 087/225] fix: Bark and ERB warping factors expect the sampling
 rate in kHz

---
 dsptoolbox/transforms/_transforms.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dsptoolbox/transforms/_transforms.py b/dsptoolbox/transforms/_transforms.py
index 2073c07..aa7a7f2 100644
--- a/dsptoolbox/transforms/_transforms.py
+++ b/dsptoolbox/transforms/_transforms.py
@@ -447,12 +447,12 @@ def _get_warping_factor(warping_factor: float | str, fs_hz: int) -> float:
         if "bark" in warping_factor:
             # Eq. (26)
             warping_factor = -1.0 * (
-                1.0674 * (2.0 / np.pi * np.arctan(0.06583 * fs_hz)) ** 0.5 - 0.1916
+                1.0674 * (2.0 / np.pi * np.arctan(0.06583 * fs_hz / 1e3)) ** 0.5 - 0.1916
             )
         elif "erb" in warping_factor:
             # Eq. (30)
             warping_factor = -1.0 * (
-                0.7446 * (2.0 / np.pi * np.arctan(0.1418 * fs_hz)) ** 0.5 + 0.03237
+                0.7446 * (2.0 / np.pi * np.arctan(0.1418 * fs_hz / 1e3)) ** 0.5 + 0.03237
             )
         else:
             raise ValueError("Warping factor approximation is not supported")
-- 
2.43.0


From 7ddc707b3c7870aba4943b7cc507f2f05a12daf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:56 +0000
Subject: [PATCH 088/225] fix: warp extends to total_length and takes any real
 warping factor

---
 dsptoolbox/transforms/_transforms.py | 2 +-
 dsptoolbox/transforms/transforms.py  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/dsptoolbox/transforms/_transforms.py b/dsptoolbox/transforms/_transforms.py
index aa7a7f2..6acf08b 100644
--- a/dsptoolbox/transforms/_transforms.py
+++ b/dsptoolbox/transforms/_transforms.py
@@ -439,7 +439,7 @@ def _get_warping_factor(warping_factor: float | str, fs_hz: int) -> float:
       697 - 708. 10.1109/89.799695.
 
     """
-    if type(warping_factor) is float:
+    if isinstance(warping_factor, (float, int, np.floating)):
         assert np.abs(warping_factor) < 1.0, "Warping factor has to be in ]-1; 1["
     elif type(warping_factor) is str:
         warping_factor = warping_factor.lower()
diff --git a/dsptoolbox/transforms/transforms.py b/dsptoolbox/transforms/transforms.py
index e65cbb3..6da3e33 100644
--- a/dsptoolbox/transforms/transforms.py
+++ b/dsptoolbox/transforms/transforms.py
@@ -1135,7 +1135,7 @@ def warp(
 
     warped_ir = ir.copy_with_new_time_data(
         _warp_time_series(
-            td if total_length is None else td[:total_length, ...],
+            td if total_length is None else _pad_trim(td, total_length),
             warping_factor,
         )
     )
-- 
2.43.0


From af5c55deef68c9bd4589d5397ba69bb1f1910a50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:56 +0000
Subject: [PATCH 089/225] fix: vqt returns the frequencies of its rows and
 accepts a channel selection

---
 dsptoolbox/transforms/transforms.py | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/dsptoolbox/transforms/transforms.py b/dsptoolbox/transforms/transforms.py
index 6da3e33..a38ffe2 100644
--- a/dsptoolbox/transforms/transforms.py
+++ b/dsptoolbox/transforms/transforms.py
@@ -904,10 +904,7 @@ def vqt(
     kernels = _get_kernels_vqt(q, highest_f, bins_per_octave, mid_fs, window, gamma)
 
     octs = octaves[1] - octaves[0] + 1
-    cqt = np.zeros(
-        (0, signal.time_data.shape[0], signal.number_of_channels),
-        dtype=np.complex128,
-    )
+    cqt = np.zeros((0, signal.time_data.shape[0], td.shape[1]), dtype=np.complex128)
 
     for oc in np.arange(octs):
         # Accumulator for octave
@@ -933,9 +930,7 @@ def vqt(
 
     # Invert frequency axis
     cqt = np.flip(cqt, axis=0)
-    f = a4_tuning * 2 ** (
-        np.arange(octaves[0] - 4 - 9 / 12, octaves[1] - 4 + 2 / 12, 1 / 12)
-    )
+    f = highest_f * 2 ** (-np.arange(cqt.shape[0])[::-1] / bins_per_octave)
     return f, cqt
 
 
-- 
2.43.0


From 7b4a5fea9d33fcd2eba08bc42b8fcb49871c0055 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:56 +0000
Subject: [PATCH 090/225] fix: plot_waterfall shows any channel and works
 without dynamic range

---
 dsptoolbox/transforms/transforms.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/dsptoolbox/transforms/transforms.py b/dsptoolbox/transforms/transforms.py
index a38ffe2..78db2ee 100644
--- a/dsptoolbox/transforms/transforms.py
+++ b/dsptoolbox/transforms/transforms.py
@@ -311,11 +311,14 @@ def plot_waterfall(
         Axes.
 
     """
-    assert dynamic_range_db > 0, "Dynamic range has to be more than 0"
+    assert (
+        dynamic_range_db is None or dynamic_range_db > 0
+    ), "Dynamic range has to be more than 0"
     sig = sig.get_channels(channel)
     if stft_parameters is not None:
         sig.set_spectrogram_parameters(**stft_parameters)
     t, f, stft = sig.get_spectrogram()
+    stft = stft[..., 0]
 
     amplitude_scaling = sig.spectrum_scaling.is_amplitude_scaling()
     fig, ax = plt.subplots(figsize=(10, 8), subplot_kw=dict(projection="3d"))
@@ -323,7 +326,7 @@ def plot_waterfall(
     ax.plot_surface(
         tt,
         ff,
-        to_db(stft[..., channel], amplitude_scaling, dynamic_range_db),
+        to_db(stft, amplitude_scaling, dynamic_range_db),
         cmap="magma",
     )
     ax.set_xlabel("Time / s")
-- 
2.43.0


From ceebcbb93d076c07c73665d93b432ab215479a3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:56 +0000
Subject: [PATCH 091/225] fix: log_mel_spectrogram and mfcc leave the
 parameters of the signal alone

---
 dsptoolbox/transforms/transforms.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dsptoolbox/transforms/transforms.py b/dsptoolbox/transforms/transforms.py
index 78db2ee..76221cd 100644
--- a/dsptoolbox/transforms/transforms.py
+++ b/dsptoolbox/transforms/transforms.py
@@ -174,6 +174,7 @@ def log_mel_spectrogram(
 
     """
     if stft_parameters is not None:
+        s = s.copy()
         s.set_spectrogram_parameters(**stft_parameters)
     time_s, f_hz, sp = s.get_spectrogram()
 
@@ -407,6 +408,7 @@ def mfcc(
 
     """
     if stft_parameters is not None:
+        signal = signal.copy()
         signal.set_spectrogram_parameters(**stft_parameters)
     time_s, f, sp = signal.get_spectrogram()
 
-- 
2.43.0


From fe45ea395632f7c09510bba502477f0909dca497 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:56 +0000
Subject: [PATCH 092/225] fix: mel bands narrower than the frequency resolution
 are not NaN

---
 dsptoolbox/transforms/transforms.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dsptoolbox/transforms/transforms.py b/dsptoolbox/transforms/transforms.py
index 76221cd..85f86df 100644
--- a/dsptoolbox/transforms/transforms.py
+++ b/dsptoolbox/transforms/transforms.py
@@ -275,6 +275,8 @@ def mel_filterbank(
         mel_filters[n, inds[ni] : inds[ni + 1]] = np.linspace(
             1, 0, inds[ni + 1] - inds[ni], endpoint=False
         )
+        # Bands narrower than the frequency resolution take their nearest bin
+        mel_filters[n, inds[ni]] = 1.0
         if normalize:
             mel_filters[n, :] /= np.sum(mel_filters[n, :])
     return mel_filters, mel_center_freqs[1:-1]
-- 
2.43.0


From d6c3c6dbc8eb7d54ed45fb9b337f1e443e50076b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:56 +0000
Subject: [PATCH 093/225] fix: burg estimation of several channels returns
 order + 1 coefficients

---
 dsptoolbox/helpers/ar_estimation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dsptoolbox/helpers/ar_estimation.py b/dsptoolbox/helpers/ar_estimation.py
index eef3a01..a5cff73 100644
--- a/dsptoolbox/helpers/ar_estimation.py
+++ b/dsptoolbox/helpers/ar_estimation.py
@@ -166,7 +166,7 @@ def _burg_ar_estimation(
         ar_coeffs = np.zeros((order + 1, 1))
     else:
         shape = list(time_data.shape)
-        shape[0] += 1
+        shape[0] = order + 1
         ar_coeffs = np.zeros(tuple(shape))
 
     ar_coeffs[0] = 1.0
-- 
2.43.0


From 531abcf9a7ee6c81dbdd4da4cdbb686bec3b18f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:56 +0000
Subject: [PATCH 094/225] fix: burg estimation returns the variance of the
 prediction error

---
 dsptoolbox/helpers/ar_estimation.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dsptoolbox/helpers/ar_estimation.py b/dsptoolbox/helpers/ar_estimation.py
index a5cff73..f35d3d2 100644
--- a/dsptoolbox/helpers/ar_estimation.py
+++ b/dsptoolbox/helpers/ar_estimation.py
@@ -177,6 +177,7 @@ def _burg_ar_estimation(
     den = reflect_coeff.copy()
 
     epsilon = np.finfo(np.float64).eps
+    variance = np.mean(time_data**2.0, axis=0)
 
     fwd_pred_error = time_data[1:]
     bwd_pred_error = time_data[:-1]
@@ -197,9 +198,10 @@ def _burg_ar_estimation(
         bwd_pred_error = bwd_pred_error + reflect_coeff * fwd_pred_error_tmp
 
         q = 1.0 - reflect_coeff[0] ** 2
+        variance *= q
         den[0] = q * den[0] - bwd_pred_error[-1] ** 2 - fwd_pred_error[0] ** 2
 
         fwd_pred_error = fwd_pred_error[1:]
         bwd_pred_error = bwd_pred_error[:-1]
 
-    return ar_coeffs.squeeze() if onedim else ar_coeffs, den[0]
+    return ar_coeffs.squeeze() if onedim else ar_coeffs, variance
-- 
2.43.0


From 615a0268e00271b029b1ef5d3108232e2f5cefc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:11 +0000
Subject: [PATCH 095/225] fix: linear prediction of silent windows does not
 fail

---
 dsptoolbox/helpers/ar_estimation.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/dsptoolbox/helpers/ar_estimation.py b/dsptoolbox/helpers/ar_estimation.py
index f35d3d2..7d1f0cf 100644
--- a/dsptoolbox/helpers/ar_estimation.py
+++ b/dsptoolbox/helpers/ar_estimation.py
@@ -31,6 +31,10 @@ def _levison_durbin_recursion(
     num_coefficients = autocorr_coefficients.shape[0]
     ar_parameters = np.zeros_like(autocorr_coefficients)
 
+    # There is nothing to predict in silence
+    silence = prediction_error == 0.0
+    prediction_error = np.where(silence, 1.0, prediction_error)
+
     for order in range(num_coefficients):
         reflection_value = autocorr_coefficients[order].copy()
         if order == 0:
@@ -64,7 +68,7 @@ def _levison_durbin_recursion(
     pad_width = tuple([(1, 0)] + [(0, 0)] * (ndim - 1))
     return (
         np.pad(ar_parameters, pad_width, mode="constant", constant_values=1.0),
-        prediction_error,
+        np.where(silence, 0.0, prediction_error),
     )
 
 
-- 
2.43.0


From f96a90a50520fefe576bf6220a37974ee117ee38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:11 +0000
Subject: [PATCH 096/225] fix: lpc synthesizes with the level of the model

---
 dsptoolbox/transforms/transforms.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/dsptoolbox/transforms/transforms.py b/dsptoolbox/transforms/transforms.py
index 85f86df..400f68c 100644
--- a/dsptoolbox/transforms/transforms.py
+++ b/dsptoolbox/transforms/transforms.py
@@ -1252,7 +1252,7 @@ def lpc(
     Returns
     -------
     a_coefficients : NDArray[np.float64]
-        LP coefficients with shape (time window, coefficient, channel).
+        LP coefficients with shape (coefficient, time window, channel).
     variances : NDArray[np.float64]
         Variances (quadratic) of the source with shape (time window, channel).
     reconstructed_signal : Signal
@@ -1298,7 +1298,9 @@ def lpc(
     synthesized_signal = _reconstruct_framed_signal(
         synthesized_signal, hop_size_samples, window, len(signal)
     )
-    return Signal.from_time_data(synthesized_signal, signal.sampling_rate_hz)
+    return Signal.from_time_data(
+        synthesized_signal, signal.sampling_rate_hz, constrain_amplitude=False
+    )
 
 
 def dft(signal: Signal, frequency_vector_hz: NDArray[np.float64]):
-- 
2.43.0


From 992b1140df07984a5cdb98a6dda0f6384946a2c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:25 +0000
Subject: [PATCH 097/225] fix: lpc returns coefficients and variances next to
 the synthesized signal

---
 dsptoolbox/transforms/transforms.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/dsptoolbox/transforms/transforms.py b/dsptoolbox/transforms/transforms.py
index 400f68c..bb86d7f 100644
--- a/dsptoolbox/transforms/transforms.py
+++ b/dsptoolbox/transforms/transforms.py
@@ -1298,8 +1298,12 @@ def lpc(
     synthesized_signal = _reconstruct_framed_signal(
         synthesized_signal, hop_size_samples, window, len(signal)
     )
-    return Signal.from_time_data(
-        synthesized_signal, signal.sampling_rate_hz, constrain_amplitude=False
+    return (
+        a,
+        var,
+        Signal.from_time_data(
+            synthesized_signal, signal.sampling_rate_hz, constrain_amplitude=False
+        ),
     )
 
 
-- 
2.43.0


From 10bd133fcde7b20658b9213c57ad9ba8c3677d1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:34 +0000
Subject: [PATCH 098/225] fix: vqt uses the exact sampling rate after
 decimation

---
 dsptoolbox/transforms/transforms.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dsptoolbox/transforms/transforms.py b/dsptoolbox/transforms/transforms.py
index bb86d7f..287ba79 100644
--- a/dsptoolbox/transforms/transforms.py
+++ b/dsptoolbox/transforms/transforms.py
@@ -902,7 +902,7 @@ def vqt(
     # Find necessary sampling rate, i.e., one with nyquist just above
     # highest frequency. This delivers the necessary decimation factor.
     decimation = int((signal.sampling_rate_hz // 2) / (highest_f * 1.1))
-    mid_fs = signal.sampling_rate_hz // decimation
+    mid_fs = signal.sampling_rate_hz / decimation
     td = resample_poly(td, up=1, down=decimation, axis=0)
 
     # Gamma adaptation
-- 
2.43.0


From a0805bbd0679983ddf32382c7b584d814b3ece88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:34 +0000
Subject: [PATCH 099/225] fix: mid-side, laguerre and dft regard the imaginary
 part of complex signals

---
 dsptoolbox/transforms/transforms.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/dsptoolbox/transforms/transforms.py b/dsptoolbox/transforms/transforms.py
index 287ba79..13dc358 100644
--- a/dsptoolbox/transforms/transforms.py
+++ b/dsptoolbox/transforms/transforms.py
@@ -962,9 +962,12 @@ def stereo_mid_side(signal: Signal, forward: bool) -> Signal:
 
     """
     assert signal.number_of_channels == 2, "Signal must have exactly two channels"
-    td = signal.time_data.copy()
-    td[:, 0] = signal.time_data[:, 0] + signal.time_data[:, 1]
-    td[:, 1] = signal.time_data[:, 0] - signal.time_data[:, 1]
+    time_data = signal.time_data
+    if signal.is_complex_signal:
+        time_data = time_data + signal.time_data_imaginary * 1j
+    td = time_data.copy()
+    td[:, 0] = time_data[:, 0] + time_data[:, 1]
+    td[:, 1] = time_data[:, 0] - time_data[:, 1]
     if forward:
         td /= 2
     return signal.copy_with_new_time_data(td)
@@ -1015,7 +1018,10 @@ def laguerre(signal: Signal, warping_factor: float) -> Signal:
     """
     assert np.abs(warping_factor) < 1.0, "Warping factor cannot be larger than 1."
 
-    xx = signal.time_data[::-1, ...]  # Time reversal
+    xx = signal.time_data
+    if signal.is_complex_signal:
+        xx = xx + signal.time_data_imaginary * 1j
+    xx = xx[::-1, ...]  # Time reversal
     output = np.zeros_like(xx)
 
     b = np.array([warping_factor, 1.0])
@@ -1337,6 +1343,8 @@ def dft(signal: Signal, frequency_vector_hz: NDArray[np.float64]):
 
     """
     time_data = signal.time_data.astype(np.complex128, order="C")
+    if signal.is_complex_signal:
+        time_data = time_data + signal.time_data_imaginary * 1j
     f_normalized = (
         frequency_vector_hz * (time_data.shape[0] / signal.sampling_rate_hz)
     ).astype(np.complex128, order="C")
-- 
2.43.0


From 899b9cdd49fc61b8eb01cbf8e52edcc533aaac8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:27 +0000
Subject: [PATCH 100/225] fix: warp shifts the first sample above the threshold
 to the beginning

---
 dsptoolbox/transforms/transforms.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dsptoolbox/transforms/transforms.py b/dsptoolbox/transforms/transforms.py
index 13dc358..76d7523 100644
--- a/dsptoolbox/transforms/transforms.py
+++ b/dsptoolbox/transforms/transforms.py
@@ -1139,6 +1139,10 @@ def warp(
     if shift_ir:
         for ch in range(ir.number_of_channels):
             start = _find_ir_start(td[:, ch], -20)
+            # This is the sample before the threshold is surpassed
+            td_abs = np.abs(td[:, ch])
+            if td_abs[start] < np.max(td_abs) * 0.1:
+                start += 1
             td[:, ch] = np.roll(td[:, ch], -start)
 
     warped_ir = ir.copy_with_new_time_data(
-- 
2.43.0


From 2332f3258d96f08d866971a92d5e0493e0a095f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:11 +0000
Subject: [PATCH 101/225] fix: compute_transfer_function returns the ratio of
 power spectra instead of its square root

---
 dsptoolbox/transfer_functions/transfer_functions.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dsptoolbox/transfer_functions/transfer_functions.py b/dsptoolbox/transfer_functions/transfer_functions.py
index b82a953..b9eff58 100644
--- a/dsptoolbox/transfer_functions/transfer_functions.py
+++ b/dsptoolbox/transfer_functions/transfer_functions.py
@@ -51,6 +51,7 @@ from ..filterbanks import linkwitz_riley_crossovers
 from ..helpers.gain_and_level import to_db, from_db
 from ..standard.enums import (
     SpectrumMethod,
+    SpectrumScaling,
     SpectrumType,
     MagnitudeNormalization,
     Window,
@@ -473,6 +474,8 @@ def compute_transfer_function(
     spectrum_parameters.pop("method")
     spectrum_parameters.pop("smoothing")
     spectrum_parameters.pop("pad_to_fast_length")
+    # Ratios are computed from power spectra
+    spectrum_parameters["scaling"] = SpectrumScaling.PowerSpectrum
 
     coherence = np.zeros((window_length_samples // 2 + 1, output.number_of_channels))
     tf = np.zeros(
-- 
2.43.0


From d55a0a3e6c7ffe1ec6159c016acdaba834724beb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:11 +0000
Subject: [PATCH 102/225] fix: spectral_deconvolve does not depend on the
 spectrum settings of the signals

---
 dsptoolbox/transfer_functions/transfer_functions.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/dsptoolbox/transfer_functions/transfer_functions.py b/dsptoolbox/transfer_functions/transfer_functions.py
index b9eff58..9c26346 100644
--- a/dsptoolbox/transfer_functions/transfer_functions.py
+++ b/dsptoolbox/transfer_functions/transfer_functions.py
@@ -140,10 +140,10 @@ def spectral_deconvolve(
         output.time_data = _pad_trim(output.time_data, original_length * 2)
         input.time_data = _pad_trim(input.time_data, original_length * 2)
 
-    input.spectrum_method = SpectrumMethod.FFT
-    output.spectrum_method = SpectrumMethod.FFT
-    _, denum_fft = input.get_spectrum()
-    freqs_hz, num_fft = output.get_spectrum()
+    # The settings for the spectra of the signals play no role here
+    denum_fft = rfft_scipy(input.time_data, axis=0)
+    num_fft = rfft_scipy(output.time_data, axis=0)
+    freqs_hz = np.fft.rfftfreq(len(output), 1 / output.sampling_rate_hz)
     fs_hz = output.sampling_rate_hz
 
     new_time_data = np.zeros_like(output.time_data)
-- 
2.43.0


From 4ba4401298e99cd2412f52ea252b2ad7f4805b06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:11 +0000
Subject: [PATCH 103/225] fix: spectral_deconvolve finds the excited range of
 each channel

---
 .../transfer_functions/transfer_functions.py  | 22 ++++++++++---------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/dsptoolbox/transfer_functions/transfer_functions.py b/dsptoolbox/transfer_functions/transfer_functions.py
index 9c26346..e1122b4 100644
--- a/dsptoolbox/transfer_functions/transfer_functions.py
+++ b/dsptoolbox/transfer_functions/transfer_functions.py
@@ -152,29 +152,31 @@ def spectral_deconvolve(
         n_denum = 0 if multichannel else n
         if apply_regularization:
             if start_stop_hz is None:
-                start_stop_hz = find_frequencies_above_threshold(
+                range_hz = find_frequencies_above_threshold(
                     denum_fft[:, n_denum], freqs_hz, threshold_db
                 )
-            if len(start_stop_hz) == 2:
-                start_stop_hz = np.array(
+            else:
+                range_hz = start_stop_hz
+            if len(range_hz) == 2:
+                range_hz = np.array(
                     [
-                        start_stop_hz[0] / np.sqrt(2),
-                        start_stop_hz[0],
-                        start_stop_hz[1],
-                        np.min([start_stop_hz[1] * np.sqrt(2), fs_hz / 2]),
+                        range_hz[0] / np.sqrt(2),
+                        range_hz[0],
+                        range_hz[1],
+                        np.min([range_hz[1] * np.sqrt(2), fs_hz / 2]),
                     ]
                 )
-            elif len(start_stop_hz) != 4:
+            elif len(range_hz) != 4:
                 raise ValueError("start_stop_hz vector should have 2 or 4 values")
         else:
-            start_stop_hz = None
+            range_hz = None
 
         new_time_data[:, n] = _spectral_deconvolve(
             num_fft[:, n],
             denum_fft[:, n_denum],
             freqs_hz,
             original_length * 2 if padding else original_length,
-            start_stop_hz=start_stop_hz,
+            start_stop_hz=range_hz,
             regularized=apply_regularization,
         )
     new_sig = ImpulseResponse(
-- 
2.43.0


From 4d0152715ecb59b2bbec2c374c31f0e12db792cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:11 +0000
Subject: [PATCH 104/225] fix: harmonic_distortion_analysis leaves the passed
 list and responses alone

---
 dsptoolbox/transfer_functions/transfer_functions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dsptoolbox/transfer_functions/transfer_functions.py b/dsptoolbox/transfer_functions/transfer_functions.py
index e1122b4..281595f 100644
--- a/dsptoolbox/transfer_functions/transfer_functions.py
+++ b/dsptoolbox/transfer_functions/transfer_functions.py
@@ -1559,10 +1559,10 @@ def harmonic_distortion_analysis(
                 each_ir.number_of_channels == 1
             ), "Only single-channel IRs are supported"
 
-        ir2 = ir.pop(0)
+        ir2 = ir[0].copy()
         ir2._spectrum_parameters["smoothing"] = smoothing
 
-        harm = ir
+        harm = [each_ir.copy() for each_ir in ir[1:]]
         n_harmonics = len(harm)
         if chirp_range_hz is None:
             chirp_range_hz = [0, ir2.sampling_rate_hz // 2]
-- 
2.43.0


From b21bf060c061813e81b265690896fa403268d3db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:41 +0000
Subject: [PATCH 105/225] fix: minimum phase of symmetric responses keeps
 length and magnitude instead of half of both

---
 dsptoolbox/transfer_functions/transfer_functions.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/dsptoolbox/transfer_functions/transfer_functions.py b/dsptoolbox/transfer_functions/transfer_functions.py
index 281595f..92e8670 100644
--- a/dsptoolbox/transfer_functions/transfer_functions.py
+++ b/dsptoolbox/transfer_functions/transfer_functions.py
@@ -854,8 +854,11 @@ def min_phase_ir(
         )
         for ch in range(new_time_data.shape[1]):
             new_time_data[:, ch] = min_phase_scipy(
-                sig.time_data[:, ch], method="hilbert", n_fft=length_fft
-            )[: new_time_data.shape[0]]
+                new_time_data[:, ch],
+                method="homomorphic",
+                n_fft=length_fft,
+                half=False,
+            )
 
     if alpha != 1.0:
         new_time_data *= (alpha ** (-np.arange(new_time_data.shape[0])))[:, None]
@@ -973,8 +976,9 @@ def minimum_phase(
         for n in range(signal.number_of_channels):
             temp = min_phase_scipy(
                 signal.time_data[:, n],
-                method="hilbert",
-                n_fft=padding_factor * len(signal),
+                method="homomorphic",
+                n_fft=max(padding_factor * len(signal), len(signal)),
+                half=False,
             )
             min_phases[:, n] = np.angle(
                 np.fft.rfft(_pad_trim(temp, signal.time_data.shape[0]))
-- 
2.43.0


From d0f1e604b6e7643c765ca11d81cc35f2b138a3af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:41 +0000
Subject: [PATCH 106/225] fix: minimum phase is finite for responses with exact
 spectral zeros

---
 dsptoolbox/helpers/minimum_phase.py      | 14 +++++++++++++-
 dsptoolbox/standard/_standard_backend.py |  4 +++-
 2 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/dsptoolbox/helpers/minimum_phase.py b/dsptoolbox/helpers/minimum_phase.py
index 4078c5d..036cb45 100644
--- a/dsptoolbox/helpers/minimum_phase.py
+++ b/dsptoolbox/helpers/minimum_phase.py
@@ -30,8 +30,20 @@ def _get_minimum_phase_spectrum_from_real_cepstrum(
     fft_length = next_fast_len(
         max(time_data.shape[0] * padding_factor, time_data.shape[0])
     )
+    # Limit dynamic range to 500 dB (zeros of the spectrum have no logarithm)
+    magnitude = np.abs(fft(time_data, n=fft_length, axis=0))
+    magnitude = np.clip(
+        magnitude,
+        np.clip(
+            np.max(magnitude, axis=0) * 10.0 ** (-500.0 / 20.0),
+            np.finfo(np.float64).tiny,
+            None,
+        ),
+        None,
+    )
+
     # Real cepstrum
-    y = np.real(ifft(np.log(np.abs(fft(time_data, n=fft_length, axis=0))), axis=0))
+    y = np.real(ifft(np.log(magnitude), axis=0))
 
     # Window in the cepstral domain, like obtaining hilbert transform
     # If length is even, nyquist is exactly in the middle
diff --git a/dsptoolbox/standard/_standard_backend.py b/dsptoolbox/standard/_standard_backend.py
index 8737993..ada5baf 100644
--- a/dsptoolbox/standard/_standard_backend.py
+++ b/dsptoolbox/standard/_standard_backend.py
@@ -106,7 +106,9 @@ def _minimum_phase(
 
     # Limit dynamic range to 500 dB
     max_value = np.max(magnitude)
-    lowest_clipping_value = from_db(-500.0, True) * max_value
+    lowest_clipping_value = max(
+        from_db(-500.0, True) * max_value, np.finfo(np.float64).tiny
+    )
 
     # Get log magnitude
     log_magnitude = np.log(np.clip(magnitude, lowest_clipping_value, None))
-- 
2.43.0


From 7433da0df9041a5a8b471bd35292aab43e7c8750 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:41 +0000
Subject: [PATCH 107/225] fix: min_phase_from_mag returns the requested length

---
 .../transfer_functions/transfer_functions.py     | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/dsptoolbox/transfer_functions/transfer_functions.py b/dsptoolbox/transfer_functions/transfer_functions.py
index 92e8670..8f8cca3 100644
--- a/dsptoolbox/transfer_functions/transfer_functions.py
+++ b/dsptoolbox/transfer_functions/transfer_functions.py
@@ -646,15 +646,15 @@ def min_phase_from_mag(
     - https://en.wikipedia.org/wiki/Minimum_phase
 
     """
-    # Use very conservative estimate for most cases
-    delta_f_hz = (
-        0.5 if ir_length_samples is None else sampling_rate_hz / ir_length_samples
-    )
-
     # Frequency vector
-    f_vec, delta_f_hz, original_length_time_data = (
-        _get_frequency_vector_with_frequency_resolution(delta_f_hz, sampling_rate_hz)
-    )
+    if ir_length_samples is None:
+        # Use very conservative estimate for most cases
+        f_vec, _, original_length_time_data = (
+            _get_frequency_vector_with_frequency_resolution(0.5, sampling_rate_hz)
+        )
+    else:
+        f_vec = np.fft.rfftfreq(ir_length_samples, 1 / sampling_rate_hz)
+        original_length_time_data = ir_length_samples
 
     # Get interpolated magnitude spectrum
     mag_spectrum = spectrum.get_interpolated_spectrum(f_vec, SpectrumType.Magnitude)
-- 
2.43.0


From 955d8f59fd54f35d31bcab9b57d7ced5087eba77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:41 +0000
Subject: [PATCH 108/225] fix: phase and filter conversions keep the level of
 responses above full scale

---
 .../transfer_functions/transfer_functions.py     | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/dsptoolbox/transfer_functions/transfer_functions.py b/dsptoolbox/transfer_functions/transfer_functions.py
index 8f8cca3..48355b6 100644
--- a/dsptoolbox/transfer_functions/transfer_functions.py
+++ b/dsptoolbox/transfer_functions/transfer_functions.py
@@ -665,7 +665,9 @@ def min_phase_from_mag(
     time_data = np.fft.irfft(
         mag_spectrum * np.exp(1j * phase), axis=0, n=original_length_time_data
     )
-    return ImpulseResponse.from_time_data(time_data, sampling_rate_hz)
+    return ImpulseResponse.from_time_data(
+        time_data, sampling_rate_hz, constrain_amplitude=False
+    )
 
 
 def lin_phase_from_mag(
@@ -788,7 +790,9 @@ def lin_phase_from_mag(
     time_data = _pad_trim(
         time_data, int(2 * max(group_delay_to_use_s) * sampling_rate_hz + 0.5)
     )
-    return ImpulseResponse.from_time_data(time_data, sampling_rate_hz)
+    return ImpulseResponse.from_time_data(
+        time_data, sampling_rate_hz, constrain_amplitude=False
+    )
 
 
 def min_phase_ir(
@@ -1278,7 +1282,9 @@ def filter_to_ir(fir: Filter | FilterBank) -> ImpulseResponse:
     if isinstance(fir, Filter):
         assert not fir.is_iir, "This is only valid for FIR filters"
         return ImpulseResponse.from_time_data(
-            fir.ba[0].copy(), sampling_rate_hz=fir.sampling_rate_hz
+            fir.ba[0].copy(),
+            sampling_rate_hz=fir.sampling_rate_hz,
+            constrain_amplitude=False,
         )
     elif isinstance(fir, FilterBank):
         assert all([not f.is_iir for f in fir]), "Filter types must be fir"
@@ -1289,7 +1295,9 @@ def filter_to_ir(fir: Filter | FilterBank) -> ImpulseResponse:
         td = np.zeros((length_samples, len(fir)), dtype=np.float64)
         for ind, f in enumerate(fir):
             td[: len(f), ind] = f.ba[0].copy()
-        return ImpulseResponse.from_time_data(td, fir.sampling_rate_hz)
+        return ImpulseResponse.from_time_data(
+            td, fir.sampling_rate_hz, constrain_amplitude=False
+        )
     else:
         raise TypeError("Unsupported type")
 
-- 
2.43.0


From 0a5038e6544e2a5751a23bb6ea87e9bc5d56f56d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:41 +0000
Subject: [PATCH 109/225] fix: ir_to_filter uses the minimum linear phase and
 does not depend on the spectrum settings

---
 dsptoolbox/transfer_functions/transfer_functions.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/dsptoolbox/transfer_functions/transfer_functions.py b/dsptoolbox/transfer_functions/transfer_functions.py
index 48355b6..09158cc 100644
--- a/dsptoolbox/transfer_functions/transfer_functions.py
+++ b/dsptoolbox/transfer_functions/transfer_functions.py
@@ -1245,12 +1245,15 @@ def ir_to_filter(
 
     # Change phase
     if phase_mode == "min":
-        signal = min_phase_from_mag(
-            Spectrum.from_signal(signal), signal.sampling_rate_hz, len(signal)
-        )
+        signal = min_phase_ir(signal)
     elif phase_mode == "lin":
+        length_fft = next_fast_length_fft(len(signal) * 8, True)
         signal = lin_phase_from_mag(
-            Spectrum.from_signal(signal), signal.sampling_rate_hz, len(signal)
+            Spectrum(
+                np.fft.rfftfreq(length_fft, 1 / signal.sampling_rate_hz),
+                np.abs(np.fft.rfft(signal.time_data, n=length_fft, axis=0)),
+            ),
+            signal.sampling_rate_hz,
         )
 
     filters = []
-- 
2.43.0


From cfc35b317688eb66d87fb5641fa524b81a7ccc9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:41 +0000
Subject: [PATCH 110/225] fix: linear phase of integer delays is not one sample
 too long by rounding

---
 dsptoolbox/helpers/spectrum_utilities.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dsptoolbox/helpers/spectrum_utilities.py b/dsptoolbox/helpers/spectrum_utilities.py
index 7f55b83..bc5c94e 100644
--- a/dsptoolbox/helpers/spectrum_utilities.py
+++ b/dsptoolbox/helpers/spectrum_utilities.py
@@ -245,7 +245,9 @@ def _correct_for_real_phase_spectrum(phase_spectrum: NDArray[np.float64]):
         Phase spectrum that can correspond to a real signal.
 
     """
-    factor = phase_spectrum[-1] % np.pi
+    factor = np.asarray(phase_spectrum[-1] % np.pi)
+    # Avoid adding a whole period when it is already valid up to rounding
+    factor = np.where(np.pi - factor < 1e-6, factor - np.pi, factor)
 
     # Single dimension
     if phase_spectrum.ndim == 1:
-- 
2.43.0


From c1acb8e679497ac85a7ba9b75749bda4e5507bbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:41 +0000
Subject: [PATCH 111/225] fix: group_delay does not change the spectrum method
 of the signal

---
 dsptoolbox/transfer_functions/transfer_functions.py | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/dsptoolbox/transfer_functions/transfer_functions.py b/dsptoolbox/transfer_functions/transfer_functions.py
index 09158cc..bdeb382 100644
--- a/dsptoolbox/transfer_functions/transfer_functions.py
+++ b/dsptoolbox/transfer_functions/transfer_functions.py
@@ -912,10 +912,7 @@ def group_delay(
     f = np.fft.rfftfreq(td.shape[0], 1 / signal.sampling_rate_hz)
 
     if not analytic_computation:
-        spec_parameters = signal._spectrum_parameters
-        signal.spectrum_method = SpectrumMethod.FFT
         sp = rfft_scipy(td, axis=0)
-        signal._spectrum_parameters = spec_parameters
 
         if remove_ir_latency:
             assert (
-- 
2.43.0


From 0fe975b82def5e3d1ca725ff029b0ac2a9a83fc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:54 +0000
Subject: [PATCH 112/225] fix: group_delay is evaluated at the returned
 frequencies and removes the latency without cutting the response

---
 .../transfer_functions/transfer_functions.py  | 34 +++++++------------
 1 file changed, 12 insertions(+), 22 deletions(-)

diff --git a/dsptoolbox/transfer_functions/transfer_functions.py b/dsptoolbox/transfer_functions/transfer_functions.py
index bdeb382..bc54b5c 100644
--- a/dsptoolbox/transfer_functions/transfer_functions.py
+++ b/dsptoolbox/transfer_functions/transfer_functions.py
@@ -28,13 +28,11 @@ from ..helpers.spectrum_utilities import (
 from ..helpers.minimum_phase import (
     _get_minimum_phase_spectrum_from_real_cepstrum,
     _min_phase_ir_from_real_cepstrum,
-    _remove_ir_latency_from_phase_min_phase,
 )
 from ..helpers.smoothing import _fractional_octave_smoothing
 from ..helpers.latency import _get_fractional_impulse_peak_index
 from ..helpers.other import find_frequencies_above_threshold, _pad_trim
 from ..classes import Signal, Filter, ImpulseResponse, FilterBank, Spectrum
-from ..classes.filter_helpers import _group_delay_filter
 from ..standard._standard_backend import (
     _minimum_phase,
     _group_delay_direct,
@@ -50,7 +48,6 @@ from ..generators import dirac
 from ..filterbanks import linkwitz_riley_crossovers
 from ..helpers.gain_and_level import to_db, from_db
 from ..standard.enums import (
-    SpectrumMethod,
     SpectrumScaling,
     SpectrumType,
     MagnitudeNormalization,
@@ -912,26 +909,19 @@ def group_delay(
     f = np.fft.rfftfreq(td.shape[0], 1 / signal.sampling_rate_hz)
 
     if not analytic_computation:
-        sp = rfft_scipy(td, axis=0)
-
-        if remove_ir_latency:
-            assert (
-                type(signal) is ImpulseResponse
-            ), "This is only valid for an impulse response"
-            sp = _remove_ir_latency_from_phase_min_phase(
-                f, np.angle(sp), signal.time_data, signal.sampling_rate_hz, 1
-            )
-        group_delays = _group_delay_direct(sp, f[1] - f[0])
+        group_delays = _group_delay_direct(rfft_scipy(td, axis=0), f[1] - f[0])
     else:
-        group_delays = np.zeros((length_time_signal // 2 + 1, td.shape[1]))
-        for n in range(signal.number_of_channels):
-            b = td[:, n]
-            if remove_ir_latency:
-                b = b[max(int(np.argmax(np.abs(b))) - 1, 0) :]
-            a = [1]
-            _, group_delays[:, n] = _group_delay_filter(
-                [b, a], len(f), signal.sampling_rate_hz
-            )
+        ramp = np.arange(td.shape[0])[:, None]
+        with np.errstate(divide="ignore", invalid="ignore"):
+            group_delays = np.real(rfft_scipy(td * ramp, axis=0) / rfft_scipy(td, axis=0))
+        group_delays[~np.isfinite(group_delays)] = 0.0
+        group_delays /= signal.sampling_rate_hz
+
+    if remove_ir_latency:
+        assert (
+            type(signal) is ImpulseResponse
+        ), "This is only valid for an impulse response"
+        group_delays -= find_ir_latency(signal) / signal.sampling_rate_hz
 
     if smoothing != 0:
         group_delays = _fractional_octave_smoothing(group_delays, None, smoothing)
-- 
2.43.0


From 2bb3984acc754e3a667c81fbad05c2294c30cfb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:05 +0000
Subject: [PATCH 113/225] fix: combine_ir_with_dirac delays the impulse of each
 channel by its own latency only

---
 dsptoolbox/transfer_functions/transfer_functions.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/dsptoolbox/transfer_functions/transfer_functions.py b/dsptoolbox/transfer_functions/transfer_functions.py
index bc54b5c..42b7fb8 100644
--- a/dsptoolbox/transfer_functions/transfer_functions.py
+++ b/dsptoolbox/transfer_functions/transfer_functions.py
@@ -40,7 +40,6 @@ from ..standard._standard_backend import (
 from ..standard._spectral_methods import _welch
 from ..standard import (
     fractional_delay,
-    append_signals,
     normalize,
     latency,
 )
@@ -1144,7 +1143,7 @@ def combine_ir_with_dirac(
     imp = dirac(
         len(ir.time_data),
         delay_samples=0,
-        number_of_channels=1,
+        number_of_channels=ir.number_of_channels,
         sampling_rate_hz=ir.sampling_rate_hz,
     )
 
@@ -1153,13 +1152,12 @@ def combine_ir_with_dirac(
 
     for ch in range(ir.number_of_channels):
         delay_seconds = latencies_samples[ch] / ir.sampling_rate_hz
-        imp_ch = imp.get_channels(ch)
-        imp_ch = fractional_delay(imp_ch, delay_seconds=delay_seconds, keep_length=True)
-        imp = append_signals([imp, imp_ch])
+        imp = fractional_delay(
+            imp, delay_seconds=delay_seconds, channels=ch, keep_length=True
+        )
 
         # Save polarity for each channel using sample prior to peak
         polarity[ch] *= np.sign(ir.time_data[int(latencies_samples[ch] + 0.5), ch])
-    imp.remove_channel(0)
 
     # Filter crossover for both
     fb = linkwitz_riley_crossovers([crossover_frequency], order, ir.sampling_rate_hz)
-- 
2.43.0


From 20139267513219d47dbc7ad86eeb3e39d7169150 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:57 +0000
Subject: [PATCH 114/225] fix: interpolated spectrum regards frequencies
 exceeding the range only by rounding as inside

---
 dsptoolbox/classes/spectrum.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/dsptoolbox/classes/spectrum.py b/dsptoolbox/classes/spectrum.py
index df37c0b..d51c09e 100644
--- a/dsptoolbox/classes/spectrum.py
+++ b/dsptoolbox/classes/spectrum.py
@@ -586,8 +586,13 @@ class Spectrum(MultichannelData):
         if output_type == SpectrumType.Complex:
             assert not self.is_magnitude, "Complex output is not supported"
 
-        inds_outside_left = requested_frequency < self.frequency_vector_hz[0]
-        inds_outside_right = requested_frequency > self.frequency_vector_hz[-1]
+        # Frequencies differing only by rounding are not regarded as outside
+        inds_outside_left = requested_frequency < self.frequency_vector_hz[0] * (
+            1.0 - 1e-12
+        )
+        inds_outside_right = requested_frequency > self.frequency_vector_hz[-1] * (
+            1.0 + 1e-12
+        )
         if self.__int_edges == InterpolationEdgeHandling.Error:
             assert 0 == np.sum(inds_outside_left | inds_outside_right), (
                 "Frequencies are not in the given range and edge handling "
-- 
2.43.0


From 4d5ded64184804c16605b134bbb7a87ba0453ccd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:07 +0000
Subject: [PATCH 115/225] fix: ir_to_filter with linear phase contains the
 magnitude at nyquist

---
 dsptoolbox/transfer_functions/transfer_functions.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dsptoolbox/transfer_functions/transfer_functions.py b/dsptoolbox/transfer_functions/transfer_functions.py
index 42b7fb8..f5580c0 100644
--- a/dsptoolbox/transfer_functions/transfer_functions.py
+++ b/dsptoolbox/transfer_functions/transfer_functions.py
@@ -1232,7 +1232,8 @@ def ir_to_filter(
     if phase_mode == "min":
         signal = min_phase_ir(signal)
     elif phase_mode == "lin":
-        length_fft = next_fast_length_fft(len(signal) * 8, True)
+        # Even length, so that nyquist is contained
+        length_fft = next_fast_length_fft(len(signal) * 4, True) * 2
         signal = lin_phase_from_mag(
             Spectrum(
                 np.fft.rfftfreq(length_fft, 1 / signal.sampling_rate_hz),
-- 
2.43.0


From 3c1db8c77785ee2c4e7ec5836931b676df4dac98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:07 +0000
Subject: [PATCH 116/225] fix: excess_group_delay is not compared to zero at
 nyquist for odd lengths

---
 .../transfer_functions/transfer_functions.py  | 23 +++++++------------
 1 file changed, 8 insertions(+), 15 deletions(-)

diff --git a/dsptoolbox/transfer_functions/transfer_functions.py b/dsptoolbox/transfer_functions/transfer_functions.py
index f5580c0..6ea081d 100644
--- a/dsptoolbox/transfer_functions/transfer_functions.py
+++ b/dsptoolbox/transfer_functions/transfer_functions.py
@@ -21,10 +21,7 @@ from ._transfer_functions import (
     _get_frequency_vector_with_frequency_resolution,
     _fdw_backend,
 )
-from ..helpers.spectrum_utilities import (
-    _correct_for_real_phase_spectrum,
-    _interpolate_fr,
-)
+from ..helpers.spectrum_utilities import _correct_for_real_phase_spectrum
 from ..helpers.minimum_phase import (
     _get_minimum_phase_spectrum_from_real_cepstrum,
     _min_phase_ir_from_real_cepstrum,
@@ -1061,18 +1058,14 @@ def excess_group_delay(
 
     """
     assert type(signal) is ImpulseResponse, "This is only valid for an impulse response"
-    f_min, min_gd = minimum_group_delay(signal, smoothing=0, padding_factor=1)
-    f, gd = group_delay(
-        signal,
-        smoothing=0,
-        analytic_computation=analytic_computation,
-        remove_ir_latency=remove_ir_latency,
+    # Pad to the fast FFT length so that both group delays share the frequencies
+    ir = signal.copy_with_new_time_data(
+        _pad_trim(signal.time_data, next_fast_length_fft(len(signal)))
     )
-
-    # Min GD has fast FFT length, GD has fast RFFT length
-    # => Interpolate if they do not match
-    if len(f) != len(f_min):
-        gd = _interpolate_fr(f, gd, f_min, None, "linear")
+    f_min, min_gd = minimum_group_delay(ir, smoothing=0, padding_factor=1)
+    _, gd = group_delay(ir, smoothing=0, analytic_computation=analytic_computation)
+    if remove_ir_latency:
+        gd -= find_ir_latency(signal) / signal.sampling_rate_hz
 
     ex_gd = gd - min_gd
 
-- 
2.43.0


From ab8dc9daefc0ff4b849fb0eb29459d70425559d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:40 +0000
Subject: [PATCH 117/225] fix: window_ir uses the requested ratio between the
 flanks

---
 dsptoolbox/transfer_functions/_transfer_functions.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/dsptoolbox/transfer_functions/_transfer_functions.py b/dsptoolbox/transfer_functions/_transfer_functions.py
index 483124c..06a39ff 100644
--- a/dsptoolbox/transfer_functions/_transfer_functions.py
+++ b/dsptoolbox/transfer_functions/_transfer_functions.py
@@ -65,7 +65,10 @@ def _window_this_ir_tukey(
 
     # Expected flank length
     flank_length_total = int((1 - constant_percentage) * total_length)
-    left_flank_length = int(flank_length_total * 0.5 * left_to_right_flank_ratio)
+    left_flank_length = int(
+        flank_length_total
+        * (left_to_right_flank_ratio / (1.0 + left_to_right_flank_ratio))
+    )
     right_flank_length = max(flank_length_total - left_flank_length, 0)
 
     # Maximum
-- 
2.43.0


From 806210b939aef1578a40a9fd2fe72ebc9be44cc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:40 +0000
Subject: [PATCH 118/225] fix: window_ir keeps the offset when the response has
 to be padded at the beginning

---
 dsptoolbox/transfer_functions/_transfer_functions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dsptoolbox/transfer_functions/_transfer_functions.py b/dsptoolbox/transfer_functions/_transfer_functions.py
index 06a39ff..db641f0 100644
--- a/dsptoolbox/transfer_functions/_transfer_functions.py
+++ b/dsptoolbox/transfer_functions/_transfer_functions.py
@@ -80,14 +80,14 @@ def _window_this_ir_tukey(
         if impulse_index - offset_samples < 0:
             pad_length = -int(impulse_index - offset_samples)
             vec = np.pad(vec, ((pad_length, 0)))
-            impulse_index += pad_length  # Update to reflect new position after padding
+            impulse_index = 0  # First value of the window with amplitude 1
             start_sample += pad_length
             padding_left += pad_length
         else:
             impulse_index -= offset_samples
 
         # If left flank is longer than the amount of samples expected
-        if impulse_index - left_flank_length < 0:
+        if impulse_index - left_flank_length <= 0:
             pad_length = int(-(impulse_index - left_flank_length))
             vec = np.pad(vec, ((pad_length, 0)))
             start_sample += pad_length
-- 
2.43.0


From 638a6b4133d65802463a04cccbf10a37a571952e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:40 +0000
Subject: [PATCH 119/225] fix: window_centered_ir does not silence responses
 and reports the start in the original response

---
 .../transfer_functions/_transfer_functions.py      | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/dsptoolbox/transfer_functions/_transfer_functions.py b/dsptoolbox/transfer_functions/_transfer_functions.py
index db641f0..1abf234 100644
--- a/dsptoolbox/transfer_functions/_transfer_functions.py
+++ b/dsptoolbox/transfer_functions/_transfer_functions.py
@@ -164,12 +164,13 @@ def _window_this_ir(
     w : NDArray[np.float64]
         Generated window.
     ind_low_td : int
-        Sample position of the start.
+        Sample position of the start in the original vector. It is negative
+        when zeros were added in the beginning.
 
     """
     peak_ind = int(np.argmax(np.abs(vec)))
     half_length = total_length // 2
-    centered_impulse_and_even = peak_ind + half_length == len(vec) and len(vec) % 2 == 0
+    original_length = len(vec)
 
     # If Peak is in the second half
     flipping = peak_ind > half_length
@@ -192,12 +193,8 @@ def _window_this_ir(
         vec = np.pad(vec, ((0, total_length + ind_low_td - len(vec))))
 
     # Get second half
-    if peak_ind + half_length + 1 > len(vec) and not centered_impulse_and_even:
-        ind_up_td = len(vec)
-        ind_up_w = peak_ind + half_length + 1 - len(vec)
-    else:
-        ind_up_td = peak_ind + half_length + 1
-        ind_up_w = len(w) - (1 if centered_impulse_and_even else 0)
+    ind_up_td = min(peak_ind + half_length + 1, len(vec))
+    ind_up_w = len(w) - (peak_ind + half_length + 1 - ind_up_td)
 
     # Get time data and window
     w = w[ind_low_w:ind_up_w]
@@ -212,6 +209,7 @@ def _window_this_ir(
     if flipping:
         td = td[::-1]
         w = w[::-1]
+        ind_low_td = original_length - ind_low_td - total_length
 
     return td, w, ind_low_td
 
-- 
2.43.0


From a0ccaa55a5e1e904a7111c4d47dc32bb3fa27a93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:40 +0000
Subject: [PATCH 120/225] fix: average_irs normalizes the energies and does not
 depend on the spectrum settings

---
 .../transfer_functions/transfer_functions.py       | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/dsptoolbox/transfer_functions/transfer_functions.py b/dsptoolbox/transfer_functions/transfer_functions.py
index 6ea081d..35da871 100644
--- a/dsptoolbox/transfer_functions/transfer_functions.py
+++ b/dsptoolbox/transfer_functions/transfer_functions.py
@@ -573,13 +573,15 @@ def average_irs(
     avg_sig = signal.copy()
 
     if normalize_energy:
-        energies = np.sum(signal.time_data**2, axis=0)
-        energies /= energies[0]
-        avg_sig.time_data *= energies
+        energies = np.sum(avg_sig.time_data**2, axis=0)
+        with np.errstate(divide="ignore", invalid="ignore"):
+            factors = (energies[0] / energies) ** 0.5
+        factors[energies == 0.0] = 1.0
+        avg_sig.time_data = avg_sig.time_data * factors
 
     if not time_average:
         # Obtain channel magnitude and phase spectra
-        _, sp = signal.get_spectrum()
+        sp = np.fft.rfft(avg_sig.time_data, axis=0)
         mag = np.abs(sp)
         pha = np.unwrap(np.angle(sp), axis=0)
 
@@ -592,7 +594,7 @@ def average_irs(
         # New time data and signal object
         new_time_data = np.fft.irfft(new_sp[..., None], n=signal.length_samples, axis=0)
     else:
-        latencies = find_ir_latency(signal)
+        latencies = find_ir_latency(avg_sig)
         channel_to_follow = np.argmax(latencies)
         for i in range(signal.number_of_channels):
             if channel_to_follow == i:
@@ -601,7 +603,7 @@ def average_irs(
                 latencies[channel_to_follow] - latencies[i]
             ) / signal.sampling_rate_hz
             new_channel = fractional_delay(
-                signal.get_channels(i), latency_s, keep_length=True
+                avg_sig.get_channels(i), latency_s, keep_length=True
             )
             avg_sig.time_data[:, i] = new_channel.time_data[:, 0]
         new_time_data = np.mean(avg_sig.time_data, axis=1)
-- 
2.43.0


From d6454d0ea507beeb2f954e7449891affc9b1f2fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:40 +0000
Subject: [PATCH 121/225] fix: trimming of responses above full scale does not
 stop at the first window

---
 dsptoolbox/transfer_functions/_transfer_functions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dsptoolbox/transfer_functions/_transfer_functions.py b/dsptoolbox/transfer_functions/_transfer_functions.py
index 1abf234..b778ff7 100644
--- a/dsptoolbox/transfer_functions/_transfer_functions.py
+++ b/dsptoolbox/transfer_functions/_transfer_functions.py
@@ -331,7 +331,7 @@ def _trim_ir(
     corr_coeff = np.zeros(len(window_lengths))
     for ind, window_length in enumerate(window_lengths):
         current_start_position = 0
-        current_window_mean_db = 0
+        current_window_mean_db = np.inf
 
         for _ in range(len(envelope) // window_length):
             new_window_mean_db = np.mean(
-- 
2.43.0


From 2c6df5e965734f82a4a79c785155c89535545dbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:18 +0000
Subject: [PATCH 122/225] fix: noise compensation of the energy decay curve
 uses the fitted slope and intercept

---
 dsptoolbox/room_acoustics/_room_acoustics.py | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/dsptoolbox/room_acoustics/_room_acoustics.py b/dsptoolbox/room_acoustics/_room_acoustics.py
index 9b386d4..9d060c2 100644
--- a/dsptoolbox/room_acoustics/_room_acoustics.py
+++ b/dsptoolbox/room_acoustics/_room_acoustics.py
@@ -1188,14 +1188,12 @@ def _compute_energy_decay_curve(
     start_index_int = np.where(dynamic_range_db + np.min(signal_db) > signal_db)[0][0]
     time_vector = np.linspace(0, len(signal_power) / fs_hz, len(signal_power))
     p = np.polyfit(time_vector[start_index_int:], signal_db[start_index_int:], 1)
-    avoid_corrections = p[1] >= 0.0  # Check if slope makes sense
-
-    # Lundeby's compensation energy
-    B = from_db(p[0], False)
-    t_1 = (to_db(noise_power, False) - p[0]) / p[1]
-    avoid_corrections |= t_1 <= 0.0  # Check if intersection time makes sense
-    A = np.log(noise_power / B) / t_1
-    e_comp = -B / A * np.exp(A * t_1)
+    avoid_corrections = p[0] >= 0.0  # Check if slope makes sense
+
+    # Lundeby's compensation energy from the stopping index on
+    B = from_db(p[1], False)
+    A = p[0] * np.log(10.0) / 10.0
+    e_comp = -B / A * np.exp(A * time_vector[-1])
 
     # Correct noise
     signal_power -= noise_power
-- 
2.43.0


From 080bc7df73423f5b35bfe5bfba7e33c846e56e5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:18 +0000
Subject: [PATCH 123/225] fix: reverb_time uses the passed start of the impulse
 response

---
 dsptoolbox/room_acoustics/_room_acoustics.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/dsptoolbox/room_acoustics/_room_acoustics.py b/dsptoolbox/room_acoustics/_room_acoustics.py
index 9d060c2..3d2e381 100644
--- a/dsptoolbox/room_acoustics/_room_acoustics.py
+++ b/dsptoolbox/room_acoustics/_room_acoustics.py
@@ -57,7 +57,7 @@ def _reverb(
     acoustical parameters. pp. 22.
 
     """
-    edc = _compute_energy_decay_curve(h, automatic_trimming, fs_hz)
+    edc = _compute_energy_decay_curve(h, automatic_trimming, fs_hz, ir_start)
     time_vector = np.linspace(0, len(edc) / fs_hz, len(edc))
 
     # Reverb
@@ -1141,9 +1141,10 @@ def _compute_energy_decay_curve(
     time_data: NDArray[np.float64],
     trim_automatically: bool,
     fs_hz: int,
+    ir_start: int | None = None,
 ) -> NDArray[np.float64]:
-    """Get the energy decay curve. The start is found at -20 dB relative to
-    peak according to DIN EN ISO 3382. A noise correction term according to [1]
+    """Get the energy decay curve. Unless passed as `ir_start`, the start is
+    found at -20 dB relative to peak according to DIN EN ISO 3382. A noise correction term according to [1]
     is applied, and the compensation energy for a truncated IR according to [2]
     is also regarded.
 
@@ -1168,7 +1169,7 @@ def _compute_energy_decay_curve(
         stopping_index = len(time_data)
 
     # Find start
-    start_index = _find_ir_start(time_data)
+    start_index = _find_ir_start(time_data) if ir_start is None else ir_start
 
     # Get noise estimation
     if stopping_index != len(time_data):
-- 
2.43.0


From 989f7a3abd3eb2196b0b4853729ccddc2f6e6bf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:18 +0000
Subject: [PATCH 124/225] fix: reverb_time of responses without samples before
 their start or after their end

---
 dsptoolbox/room_acoustics/_room_acoustics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dsptoolbox/room_acoustics/_room_acoustics.py b/dsptoolbox/room_acoustics/_room_acoustics.py
index 3d2e381..cbf87c2 100644
--- a/dsptoolbox/room_acoustics/_room_acoustics.py
+++ b/dsptoolbox/room_acoustics/_room_acoustics.py
@@ -1177,7 +1177,7 @@ def _compute_energy_decay_curve(
         noise_power = np.var(time_data[stopping_index:])
     else:
         # Assume there is no noise in the end, take at least until the start
-        noise_power = np.var(time_data[:start_index])
+        noise_power = np.var(time_data[:start_index]) if start_index > 0 else 0.0
 
     signal_power = time_data[start_index:stopping_index] ** 2.0
 
-- 
2.43.0


From 19a091fbc8f8f085b90881a9dffed7b0bdd53a99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:18 +0000
Subject: [PATCH 125/225] fix: start of an impulse response is before the
 threshold is surpassed for the first time

---
 dsptoolbox/room_acoustics/_room_acoustics.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/dsptoolbox/room_acoustics/_room_acoustics.py b/dsptoolbox/room_acoustics/_room_acoustics.py
index cbf87c2..657ccab 100644
--- a/dsptoolbox/room_acoustics/_room_acoustics.py
+++ b/dsptoolbox/room_acoustics/_room_acoustics.py
@@ -109,10 +109,8 @@ def _find_ir_start(ir: NDArray[np.float64], threshold_dbfs: float = -20) -> int:
     # -20 dB distance from peak value according to ISO 3382-1:2009-10
     threshold = ir_abs[start_ir] * from_db(-np.abs(threshold_dbfs), True)
 
-    for start_ir in range(start_ir, -1, -1):
-        if ir_abs[start_ir] < threshold:
-            break
-    return start_ir
+    # Sample before the first one that reaches the threshold
+    return max(int(np.argmax(ir_abs >= threshold)) - 1, 0)
 
 
 def _complex_mode_identification(
-- 
2.43.0


From 3a460cc1c057b439dd8dfd64f617b45eb2ca46b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:18 +0000
Subject: [PATCH 126/225] fix: find_modes leaves the spectrum method of its
 input

---
 dsptoolbox/room_acoustics/room_acoustics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dsptoolbox/room_acoustics/room_acoustics.py b/dsptoolbox/room_acoustics/room_acoustics.py
index 3f66b86..e0ee322 100644
--- a/dsptoolbox/room_acoustics/room_acoustics.py
+++ b/dsptoolbox/room_acoustics/room_acoustics.py
@@ -180,11 +180,11 @@ def find_modes(
         "Range of frequencies must have a " + "minimum and a maximum value"
     )
     assert type(signal) is ImpulseResponse, "This is only valid for an impulse response"
-    signal.spectrum_method = SpectrumMethod.FFT
 
     # Pad signal to have a resolution of around 1 Hz
     length = signal.sampling_rate_hz
     signal = pad_trim(signal, length)
+    signal.spectrum_method = SpectrumMethod.FFT
     f, sp = signal.get_spectrum()
 
     # Setting up frequency range
-- 
2.43.0


From 7c7c72c06c4c8cc63fb3238c9ef269c7b2d71738 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:18 +0000
Subject: [PATCH 127/225] fix: bass ratio uses T20

---
 dsptoolbox/room_acoustics/room_acoustics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dsptoolbox/room_acoustics/room_acoustics.py b/dsptoolbox/room_acoustics/room_acoustics.py
index e0ee322..b8d1b49 100644
--- a/dsptoolbox/room_acoustics/room_acoustics.py
+++ b/dsptoolbox/room_acoustics/room_acoustics.py
@@ -534,7 +534,7 @@ def _bass_ratio(rir: ImpulseResponse) -> NDArray[np.float64]:
         [125, 1000], filter_order=10, sampling_rate_hz=rir.sampling_rate_hz
     )[0]
     rir_multi = fb.filter_signal(rir, FilterBankMode.Parallel, zero_phase=True)
-    rt, _ = reverb_time(rir_multi)
+    rt, _ = reverb_time(rir_multi, ReverbTime.T20)
     br = np.zeros(rir.number_of_channels)
     for ch in range(rir.number_of_channels):
         br[ch] = (rt[0, ch] + rt[1, ch]) / (rt[2, ch] + rt[3, ch])
-- 
2.43.0


From c276dbea5bcc5a08f5ee7168a8ca29efe53f2d92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:18 +0000
Subject: [PATCH 128/225] fix: descriptors of bands regard the automatic
 trimming setting

---
 dsptoolbox/room_acoustics/room_acoustics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dsptoolbox/room_acoustics/room_acoustics.py b/dsptoolbox/room_acoustics/room_acoustics.py
index b8d1b49..421ef31 100644
--- a/dsptoolbox/room_acoustics/room_acoustics.py
+++ b/dsptoolbox/room_acoustics/room_acoustics.py
@@ -510,7 +510,7 @@ def descriptors(
         )
         desc = np.zeros((rir.number_of_bands, rir.number_of_channels))
         for ind, b in enumerate(rir):
-            desc[ind, :] = descriptors(b, descriptor=descriptor)
+            desc[ind, :] = descriptors(b, descriptor, automatic_trimming_rir)
     else:
         raise TypeError("RIR must be of type Signal or MultiBandSignal")
     return desc
-- 
2.43.0


From b238d15dd25c5b51c42d86b1e97dc5a3e73bba76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:18 +0000
Subject: [PATCH 129/225] fix: convolving silence with an rir delivers silence
 when keeping the peak level

---
 dsptoolbox/room_acoustics/room_acoustics.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dsptoolbox/room_acoustics/room_acoustics.py b/dsptoolbox/room_acoustics/room_acoustics.py
index 421ef31..ede84cc 100644
--- a/dsptoolbox/room_acoustics/room_acoustics.py
+++ b/dsptoolbox/room_acoustics/room_acoustics.py
@@ -260,6 +260,7 @@ def convolve_rir_on_signal(
     if keep_peak_level:
         old_peak_levels = np.max(np.abs(signal.time_data), axis=0)
         new_peak_levels = np.max(np.abs(new_time_data), axis=0)
+        new_peak_levels[new_peak_levels == 0.0] = 1.0  # Silence stays silent
         new_time_data *= (old_peak_levels / new_peak_levels)[None, ...]
 
     return signal.copy_with_new_time_data(new_time_data)
-- 
2.43.0


From f13c30f98e52a05eae457639ae82e3dc76a5ae5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:18 +0000
Subject: [PATCH 130/225] fix: positions with negative coordinates are not
 inside the room

---
 dsptoolbox/room_acoustics/_room_acoustics.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dsptoolbox/room_acoustics/_room_acoustics.py b/dsptoolbox/room_acoustics/_room_acoustics.py
index 657ccab..860ab88 100644
--- a/dsptoolbox/room_acoustics/_room_acoustics.py
+++ b/dsptoolbox/room_acoustics/_room_acoustics.py
@@ -444,7 +444,9 @@ class ShoeboxRoom(Room):
 
         """
         coordinates_m = np.squeeze(coordinates_m)
-        return bool(np.all(coordinates_m <= self.dimensions_m))
+        return bool(
+            np.all(coordinates_m >= 0) and np.all(coordinates_m <= self.dimensions_m)
+        )
 
     def get_mixing_time(
         self,
-- 
2.43.0


From ff22209a4e9d0b1d4b66fea01b7657d0b6f4910c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:18 +0000
Subject: [PATCH 131/225] fix: image sources use the walls whose areas define
 the absorption of the room

---
 dsptoolbox/room_acoustics/_room_acoustics.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dsptoolbox/room_acoustics/_room_acoustics.py b/dsptoolbox/room_acoustics/_room_acoustics.py
index 860ab88..71fb214 100644
--- a/dsptoolbox/room_acoustics/_room_acoustics.py
+++ b/dsptoolbox/room_acoustics/_room_acoustics.py
@@ -196,8 +196,8 @@ def _generate_rir(room_dim, alpha, s_pos, r_pos, rt, mo, sr) -> NDArray[np.float
         beta_1 = np.ones(3) * beta
         beta_2 = np.ones(3) * beta
     elif len(beta) == 6:
-        beta_1 = np.array([beta[1], beta[3], beta[4]])  # South  # West  # Floor
-        beta_2 = np.array([beta[0], beta[2], beta[5]])  # North  # East  # Ceiling
+        beta_1 = np.array([beta[3], beta[1], beta[4]])  # West  # South  # Floor
+        beta_2 = np.array([beta[2], beta[0], beta[5]])  # East  # North  # Ceiling
     else:
         raise ValueError("Wrong length for absorption coefficients")
 
-- 
2.43.0


From 0d5104b9cd85ed98798ecd7b615482d5dff62c76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:18 +0000
Subject: [PATCH 132/225] fix: image sources arriving at the same sample or
 after the end of the response

---
 dsptoolbox/room_acoustics/_room_acoustics.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/dsptoolbox/room_acoustics/_room_acoustics.py b/dsptoolbox/room_acoustics/_room_acoustics.py
index 71fb214..9228eb8 100644
--- a/dsptoolbox/room_acoustics/_room_acoustics.py
+++ b/dsptoolbox/room_acoustics/_room_acoustics.py
@@ -263,7 +263,14 @@ def _generate_rir(room_dim, alpha, s_pos, r_pos, rt, mo, sr) -> NDArray[np.float
                 # Distances
                 ds = get_distance(l0)
                 # Write into RIR
-                rir_vec[seconds2samples(ds / c)] += get_damping(l0) / (4 * np.pi * ds)
+                inds = seconds2samples(ds / c)
+                valid = inds < len(rir_vec)
+                # Several images might arrive at the same sample
+                np.add.at(
+                    rir_vec,
+                    inds[valid],
+                    (get_damping(l0) / (4 * np.pi * ds))[valid],
+                )
     return rir_vec
 
 
-- 
2.43.0


From 953306c40419b3b430d60bf060446dfd516c75d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:19 +0000
Subject: [PATCH 133/225] fix: add_detailed_absorption leaves the passed
 dictionary

---
 dsptoolbox/room_acoustics/_room_acoustics.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dsptoolbox/room_acoustics/_room_acoustics.py b/dsptoolbox/room_acoustics/_room_acoustics.py
index 9228eb8..f6d96b8 100644
--- a/dsptoolbox/room_acoustics/_room_acoustics.py
+++ b/dsptoolbox/room_acoustics/_room_acoustics.py
@@ -733,6 +733,7 @@ class ShoeboxRoom(Room):
         an information string about all other keys.
 
         """
+        detailed_absorption = dict(detailed_absorption)
         # Assertions of input
         assert len(detailed_absorption) == 6, (
             "The detailed absorption dictionary must have 6 entries (for "
-- 
2.43.0


From eb361208c151dd1a8d7baaf20797398c7a5e61bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:35 +0000
Subject: [PATCH 134/225] fix: fit of the decay for the noise compensation
 leaves out the samples before its maximum

---
 dsptoolbox/room_acoustics/_room_acoustics.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/dsptoolbox/room_acoustics/_room_acoustics.py b/dsptoolbox/room_acoustics/_room_acoustics.py
index f6d96b8..2646688 100644
--- a/dsptoolbox/room_acoustics/_room_acoustics.py
+++ b/dsptoolbox/room_acoustics/_room_acoustics.py
@@ -1194,7 +1194,12 @@ def _compute_energy_decay_curve(
 
     # Find compensation energy according to [2]
     signal_db = to_db(time_smoothing(signal_power, fs_hz, 20e-3), False)
-    start_index_int = np.where(dynamic_range_db + np.min(signal_db) > signal_db)[0][0]
+    max_index = int(np.argmax(signal_db))  # Leave the onset out of the fit
+    decay_db = signal_db[max_index:]
+    start_index_int = (
+        max_index
+        + np.where(max(dynamic_range_db, 0.0) + np.min(decay_db) >= decay_db)[0][0]
+    )
     time_vector = np.linspace(0, len(signal_power) / fs_hz, len(signal_power))
     p = np.polyfit(time_vector[start_index_int:], signal_db[start_index_int:], 1)
     avoid_corrections = p[0] >= 0.0  # Check if slope makes sense
-- 
2.43.0


From a5370af321cb4c5998a0c0b75eb18591b538b13f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:35 +0000
Subject: [PATCH 135/225] fix: noise estimation does not use the response when
 its start is passed

---
 dsptoolbox/room_acoustics/_room_acoustics.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/dsptoolbox/room_acoustics/_room_acoustics.py b/dsptoolbox/room_acoustics/_room_acoustics.py
index 2646688..2e52871 100644
--- a/dsptoolbox/room_acoustics/_room_acoustics.py
+++ b/dsptoolbox/room_acoustics/_room_acoustics.py
@@ -1177,15 +1177,16 @@ def _compute_energy_decay_curve(
         stopping_index = len(time_data)
 
     # Find start
-    start_index = _find_ir_start(time_data) if ir_start is None else ir_start
+    onset = _find_ir_start(time_data)
+    start_index = onset if ir_start is None else ir_start
 
     # Get noise estimation
     if stopping_index != len(time_data):
         # Either from the end
         noise_power = np.var(time_data[stopping_index:])
     else:
-        # Assume there is no noise in the end, take at least until the start
-        noise_power = np.var(time_data[:start_index]) if start_index > 0 else 0.0
+        # Assume there is no noise in the end, take at least until the onset
+        noise_power = np.var(time_data[:onset]) if onset > 0 else 0.0
 
     signal_power = time_data[start_index:stopping_index] ** 2.0
 
-- 
2.43.0


From 7655f58b81da0a34ffc6b2fdda19823623a3578f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:52 +0000
Subject: [PATCH 136/225] fix: noise estimation before the onset does not
 exceed the power at the end of the response

---
 dsptoolbox/room_acoustics/_room_acoustics.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dsptoolbox/room_acoustics/_room_acoustics.py b/dsptoolbox/room_acoustics/_room_acoustics.py
index 2e52871..819aa2a 100644
--- a/dsptoolbox/room_acoustics/_room_acoustics.py
+++ b/dsptoolbox/room_acoustics/_room_acoustics.py
@@ -1187,6 +1187,8 @@ def _compute_energy_decay_curve(
     else:
         # Assume there is no noise in the end, take at least until the onset
         noise_power = np.var(time_data[:onset]) if onset > 0 else 0.0
+        # Stationary noise can not exceed the power at the end
+        noise_power = min(noise_power, np.var(time_data[-(len(time_data) // 20 + 1) :]))
 
     signal_power = time_data[start_index:stopping_index] ** 2.0
 
-- 
2.43.0


From 3e65bcb56059004b5cf3f8c74e9cb162ddc75596 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:42 +0000
Subject: [PATCH 137/225] fix: synthetic rir with detailed absorption that does
 not depend on frequency

---
 dsptoolbox/room_acoustics/room_acoustics.py | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/dsptoolbox/room_acoustics/room_acoustics.py b/dsptoolbox/room_acoustics/room_acoustics.py
index ede84cc..3ee73d4 100644
--- a/dsptoolbox/room_acoustics/room_acoustics.py
+++ b/dsptoolbox/room_acoustics/room_acoustics.py
@@ -395,20 +395,22 @@ def generate_synthetic_rir(
         assert hasattr(
             room, "detailed_absorption"
         ), "Given room has no detailed absorption dictionary"
-        # Create filter bank
+        number_of_bands = room.detailed_absorption["absorption_matrix"].shape[1]
+        # Create filter bank (unnecessary for a single band)
         freqs = room.detailed_absorption["center_frequencies"][:-1] * np.sqrt(2)
-        fb = linkwitz_riley_crossovers(
-            crossover_frequencies_hz=freqs,
-            order=12,
-            sampling_rate_hz=sampling_rate_hz,
-        )
+        if number_of_bands > 1:
+            fb = linkwitz_riley_crossovers(
+                crossover_frequencies_hz=freqs,
+                order=12,
+                sampling_rate_hz=sampling_rate_hz,
+            )
 
         # Accumulator
         rir = np.zeros(total_length_samples)
 
         print("\nRIR Generator\n")
-        for ind in range(fb.number_of_bands):
-            print(f"Band {ind + 1} of {fb.number_of_bands} is being computed...")
+        for ind in range(number_of_bands):
+            print(f"Band {ind + 1} of {number_of_bands} is being computed...")
             alphas = room.detailed_absorption["absorption_matrix"][:, ind]
             rir_band = _generate_rir(
                 room_dim=room.dimensions_m,
@@ -422,6 +424,9 @@ def generate_synthetic_rir(
             rir_band = _pad_trim(rir_band, total_length_samples)
             # Prune possible nan values
             np.nan_to_num(rir_band, copy=False, nan=0)
+            if number_of_bands == 1:
+                rir += rir_band
+                continue
             rir0 = ImpulseResponse(None, rir_band, sampling_rate_hz)
             rir_multi = fb.filter_signal(rir0, zero_phase=True)
             rir += rir_multi.bands[ind].time_data[:, 0]
-- 
2.43.0


From 685660efe347e3b3932d8aaa7d9ca419db160ef6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:35 +0000
Subject: [PATCH 138/225] fix: normalizing silence delivers silence

---
 dsptoolbox/helpers/gain_and_level.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/dsptoolbox/helpers/gain_and_level.py b/dsptoolbox/helpers/gain_and_level.py
index 8a6c74f..affa5be 100644
--- a/dsptoolbox/helpers/gain_and_level.py
+++ b/dsptoolbox/helpers/gain_and_level.py
@@ -76,10 +76,10 @@ def _normalize(
 
     factor = from_db(dbfs, True)
     if peak_normalization:
-        factor /= np.max(np.abs(s), axis=0 if per_channel else None)
+        level = np.max(np.abs(s), axis=0 if per_channel else None)
     else:
-        factor /= _rms(s if per_channel else s.flatten())
-    s_norm = s * factor
+        level = _rms(s if per_channel else s.flatten())
+    s_norm = s * (factor / np.where(level == 0.0, 1.0, level))  # Silence stays silent
 
     return s_norm[..., 0] if onedim else s_norm
 
-- 
2.43.0


From e55ef993c24e2179d4e4f85dff89e6cb92b5ec31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:35 +0000
Subject: [PATCH 139/225] fix: padding of chirps and oscillators is rounded to
 samples

---
 dsptoolbox/generators/generators.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dsptoolbox/generators/generators.py b/dsptoolbox/generators/generators.py
index 8641c5c..eaa3b78 100644
--- a/dsptoolbox/generators/generators.py
+++ b/dsptoolbox/generators/generators.py
@@ -215,7 +215,7 @@ def chirp(
         range_hz = [15, sampling_rate_hz // 2]
     if padding_end_seconds != 0:
         assert padding_end_seconds > 0, "Padding has to be a positive time"
-        p_samples = int(padding_end_seconds * sampling_rate_hz)
+        p_samples = int(padding_end_seconds * sampling_rate_hz + 0.5)
     else:
         p_samples = 0
     l_samples = int(sampling_rate_hz * length_seconds + 0.5)
@@ -369,7 +369,7 @@ def oscillator(
 
     if padding_end_seconds != 0:
         assert padding_end_seconds > 0, "Padding has to be a positive time"
-        p_samples = int(padding_end_seconds * sampling_rate_hz)
+        p_samples = int(padding_end_seconds * sampling_rate_hz + 0.5)
     else:
         p_samples = 0
     l_samples = int(sampling_rate_hz * length_seconds + 0.5)
-- 
2.43.0


From b44ce583b2a15482cda1bffebc0c8e5722ed441b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:35 +0000
Subject: [PATCH 140/225] fix: white noise is flat down to the lowest
 frequencies and short noise is finite

---
 dsptoolbox/generators/generators.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dsptoolbox/generators/generators.py b/dsptoolbox/generators/generators.py
index eaa3b78..92a1718 100644
--- a/dsptoolbox/generators/generators.py
+++ b/dsptoolbox/generators/generators.py
@@ -92,9 +92,9 @@ def noise(
     # Set to 15 Hz to cover whole audible spectrum but without
     # numerical instabilities because of large values in lower
     # frequencies
-    id_low = np.argmin(np.abs(f - 15))
+    id_low = max(int(np.argmin(np.abs(f - 15))), 1)
     mag[0] = 0
-    if type_of_noise != NoiseType.White or type_of_noise != 0.0:
+    if type_of_noise != NoiseType.White and type_of_noise != 0.0:
         mag[:id_low] *= 1e-20
 
     ph = np.random.uniform(-np.pi, np.pi, (len(f), number_of_channels))
-- 
2.43.0


From a08a9ef728b488c96cecd4ef51f34fee876d66fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:35 +0000
Subject: [PATCH 141/225] fix: generated signals have the requested peak level
 after fading

---
 dsptoolbox/generators/generators.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/dsptoolbox/generators/generators.py b/dsptoolbox/generators/generators.py
index 92a1718..8845e1f 100644
--- a/dsptoolbox/generators/generators.py
+++ b/dsptoolbox/generators/generators.py
@@ -119,9 +119,6 @@ def noise(
         mag[id_low:, :] *= (f[id_low:] ** (-type_of_noise * 0.5))[..., None]
 
     vec = np.fft.irfft(mag * np.exp(1j * ph), n=l_samples, axis=0)
-    vec = _normalize(
-        vec, dbfs=peak_level_dbfs, peak_normalization=True, per_channel=True
-    )
     if fade is not None:
         fade_length = 0.05 * length_seconds
         vec = _fade(
@@ -138,6 +135,9 @@ def noise(
             sampling_rate_hz=sampling_rate_hz,
             at_start=False,
         )
+    vec = _normalize(
+        vec, dbfs=peak_level_dbfs, peak_normalization=True, per_channel=True
+    )
     time_data[:l_samples, :] = vec
 
     noise_sig = Signal(None, time_data, sampling_rate_hz)
@@ -238,10 +238,6 @@ def chirp(
         case _:
             raise ValueError("Unsupported chirp type")
 
-    chirp_td = _normalize(
-        chirp_td, peak_level_dbfs, peak_normalization=True, per_channel=True
-    )
-
     if fade is not None:
         fade_length = 0.05 * length_seconds
         chirp_td = _fade(
@@ -259,6 +255,10 @@ def chirp(
             at_start=False,
         )
 
+    chirp_td = _normalize(
+        chirp_td, peak_level_dbfs, peak_normalization=True, per_channel=True
+    )
+
     chirp_td = _pad_trim(chirp_td, l_samples + p_samples)
 
     chirp_n = chirp_td[..., None]
@@ -428,8 +428,6 @@ def oscillator(
         case _:
             raise ValueError("Unsupported wave form")
 
-    td = _normalize(td, peak_level_dbfs, peak_normalization=True, per_channel=True)
-
     if fade is not None:
         fade_length = 0.05 * length_seconds
         td = _fade(
@@ -447,6 +445,8 @@ def oscillator(
             at_start=False,
         )
 
+    td = _normalize(td, peak_level_dbfs, peak_normalization=True, per_channel=True)
+
     td = _pad_trim(td, l_samples + p_samples)
 
     # Signal
-- 
2.43.0


From dbb592c29f2821e09913a014df4ec758ee097f9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:52 +0000
Subject: [PATCH 142/225] fix: phase shift of uncorrelated oscillators keeps
 their wave form

---
 dsptoolbox/generators/generators.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/dsptoolbox/generators/generators.py b/dsptoolbox/generators/generators.py
index 8845e1f..f001df0 100644
--- a/dsptoolbox/generators/generators.py
+++ b/dsptoolbox/generators/generators.py
@@ -396,8 +396,8 @@ def oscillator(
         case WaveForm.Square:
             while (2 * k - 1) * frequency_hz < harmonic_cutoff_hz:
                 td += np.sin(
-                    np.pi * 2 * (2 * k - 1) * frequency_hz / sampling_rate_hz * n
-                    + phase_shift
+                    (2 * k - 1)
+                    * (2 * np.pi * frequency_hz / sampling_rate_hz * n + phase_shift)
                 ) / (2 * k - 1)
                 k += 1
             td *= 4 / np.pi
@@ -405,8 +405,8 @@ def oscillator(
             while k * frequency_hz < harmonic_cutoff_hz:
                 td += (
                     np.sin(
-                        np.pi * 2 * k * frequency_hz / sampling_rate_hz * n
-                        + phase_shift
+                        k
+                        * (2 * np.pi * frequency_hz / sampling_rate_hz * n + phase_shift)
                     )
                     / k
                     * (-1) ** k
@@ -417,8 +417,8 @@ def oscillator(
             while (2 * k - 1) * frequency_hz < harmonic_cutoff_hz:
                 td += (
                     np.sin(
-                        np.pi * 2 * (2 * k - 1) * frequency_hz / sampling_rate_hz * n
-                        + phase_shift
+                        (2 * k - 1)
+                        * (2 * np.pi * frequency_hz / sampling_rate_hz * n + phase_shift)
                     )
                     / (2 * k - 1) ** 2
                     * (-1) ** k
-- 
2.43.0


From 8958d6497580efb672e3a374c2ea61d2d4c73795 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:52 +0000
Subject: [PATCH 143/225] fix: synchronized chirp contains its end

---
 dsptoolbox/generators/generators.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dsptoolbox/generators/generators.py b/dsptoolbox/generators/generators.py
index f001df0..9f6ad68 100644
--- a/dsptoolbox/generators/generators.py
+++ b/dsptoolbox/generators/generators.py
@@ -259,6 +259,8 @@ def chirp(
         chirp_td, peak_level_dbfs, peak_normalization=True, per_channel=True
     )
 
+    # The synchronized chirp might be longer than requested
+    l_samples = max(l_samples, len(chirp_td))
     chirp_td = _pad_trim(chirp_td, l_samples + p_samples)
 
     chirp_n = chirp_td[..., None]
-- 
2.43.0


From 334a88807d2234efb23535a8c555d03ceebed713 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:54 +0000
Subject: [PATCH 144/225] fix: effects return silence for silent channels

---
 dsptoolbox/effects/_effects.py | 15 +++++++++------
 dsptoolbox/effects/effects.py  | 13 +++++++++----
 2 files changed, 18 insertions(+), 10 deletions(-)

diff --git a/dsptoolbox/effects/_effects.py b/dsptoolbox/effects/_effects.py
index 4aa6219..563cbb8 100644
--- a/dsptoolbox/effects/_effects.py
+++ b/dsptoolbox/effects/_effects.py
@@ -11,14 +11,19 @@ from ..tools import from_db
 
 
 # ========= Distortion ========================================================
+def _normalize_peak(inp: NDArray[np.float64]) -> NDArray[np.float64]:
+    """Normalize each channel to its peak value. Silence stays unchanged."""
+    peak_level = np.max(np.abs(inp), axis=0)
+    return inp / np.where(peak_level == 0.0, 1.0, peak_level)
+
+
 def _arctan_distortion(
     inp: NDArray[np.float64], distortion_level_db: float, offset_db: float
 ) -> NDArray[np.float64]:
     """Applies arctan distortion."""
     offset_linear = 10 ** (offset_db / 20)
     distortion_level_linear = 10 ** (distortion_level_db / 20)
-    peak_level = np.max(np.abs(inp), axis=0)
-    normalized = inp / peak_level
+    normalized = _normalize_peak(inp)
     return np.arctan(normalized * distortion_level_linear + offset_linear) * (2 / np.pi)
 
 
@@ -28,8 +33,7 @@ def _hard_clip_distortion(
     """Applies hard clipping distortion."""
     offset_linear = 10 ** (offset_db / 20)
     distortion_level_linear = 10 ** (distortion_level_db / 20)
-    peak_level = np.max(np.abs(inp), axis=0)
-    normalized = inp / peak_level
+    normalized = _normalize_peak(inp)
     return np.clip(
         normalized * distortion_level_linear + offset_linear, a_min=-1, a_max=1
     )
@@ -41,8 +45,7 @@ def _soft_clip_distortion(
     """Applies non-linear cubic distortion."""
     offset_linear = 10 ** (offset_db / 20)
     distortion_level_linear = 10 ** (distortion_level_db / 20)
-    peak_level = np.max(np.abs(inp), axis=0)
-    normalized = inp / peak_level * (2 / 3)
+    normalized = _normalize_peak(inp) * (2 / 3)
     normalized += offset_linear
     normalized *= distortion_level_linear
     normalized = normalized - normalized**3 / 3
diff --git a/dsptoolbox/effects/effects.py b/dsptoolbox/effects/effects.py
index d8bd109..73945f2 100644
--- a/dsptoolbox/effects/effects.py
+++ b/dsptoolbox/effects/effects.py
@@ -116,7 +116,9 @@ class AudioEffect:
                 + "channels. Restoring is ignored"
             )
             return inp
-        return inp * (self._peak_values / np.max(np.abs(inp), axis=0))
+        peak_values = np.max(np.abs(inp), axis=0)
+        silence = peak_values == 0.0
+        return inp * (self._peak_values / np.where(silence, 1.0, peak_values))
 
     def _save_rms_values(self, inp: NDArray[np.float64]):
         """Save the RMS values of a signal."""
@@ -132,7 +134,9 @@ class AudioEffect:
                 + "channels. Restoring is ignored"
             )
             return inp
-        return inp * (self._rms_values / _rms(inp))
+        rms_values = _rms(inp)
+        silence = rms_values == 0.0
+        return inp * (self._rms_values / np.where(silence, 1.0, rms_values))
 
 
 class SpectralSubtractor(AudioEffect):
@@ -984,7 +988,8 @@ class Compressor(AudioEffect):
 
         # If normalize or absolute
         if self.relative_to_peak_level:
-            td /= self._peak_values
+            peak_values = np.where(self._peak_values == 0.0, 1.0, self._peak_values)
+            td = td / peak_values
 
         attack_time_samples = int(self.attack_time_ms * 1e-3 * fs_hz)
         release_time_samples = int(self.release_time_ms * 1e-3 * fs_hz)
@@ -1002,7 +1007,7 @@ class Compressor(AudioEffect):
 
         # Restore original signal level
         if self.relative_to_peak_level:
-            td *= self._peak_values
+            td = td * peak_values
 
         # Restore RMS
         if self.automatic_make_up_gain:
-- 
2.43.0


From 25f81cf1b2b005c5d9148e71ffd5fbecd48ca61f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:54 +0000
Subject: [PATCH 145/225] fix: soft clipping does not fold the waveform beyond
 its limits

---
 dsptoolbox/effects/_effects.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/dsptoolbox/effects/_effects.py b/dsptoolbox/effects/_effects.py
index 563cbb8..f760d73 100644
--- a/dsptoolbox/effects/_effects.py
+++ b/dsptoolbox/effects/_effects.py
@@ -48,8 +48,9 @@ def _soft_clip_distortion(
     normalized = _normalize_peak(inp) * (2 / 3)
     normalized += offset_linear
     normalized *= distortion_level_linear
-    normalized = normalized - normalized**3 / 3
-    return np.clip(normalized, a_min=-2 / 3, a_max=2 / 3)
+    # The cubic function only applies between -1 and 1
+    normalized = np.clip(normalized, a_min=-1, a_max=1)
+    return normalized - normalized**3 / 3
 
 
 def _clean_signal(
-- 
2.43.0


From 7254e48d997f58dc3971f0e2e39798487e3171a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:54 +0000
Subject: [PATCH 146/225] fix: distortion mixes according to mix_percent and
 keeps the peak level

---
 dsptoolbox/effects/effects.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/dsptoolbox/effects/effects.py b/dsptoolbox/effects/effects.py
index 73945f2..ebe819e 100644
--- a/dsptoolbox/effects/effects.py
+++ b/dsptoolbox/effects/effects.py
@@ -742,12 +742,15 @@ class Distortion(AudioEffect):
         for i in range(len(self.__distortion_funcs)):
             if self.mix[i] == 0.0:
                 continue
-            new_td += self._restore_peak_values(
-                self.__distortion_funcs[i](
-                    td, self.distortion_levels[i], self.offset_db[i]
+            new_td += (
+                self._restore_peak_values(
+                    self.__distortion_funcs[i](
+                        td, self.distortion_levels[i], self.offset_db[i]
+                    )
                 )
                 * self.mix[i]
             )
+        new_td = self._restore_peak_values(new_td)
 
         new_td = self._add_gain_in_db(new_td, self.post_gain_db)
 
-- 
2.43.0


From 3808c3614bb2330d77285d15190d6a5878db192a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:55 +0000
Subject: [PATCH 147/225] fix: compressor applies the post gain

---
 dsptoolbox/effects/effects.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dsptoolbox/effects/effects.py b/dsptoolbox/effects/effects.py
index ebe819e..14e12cb 100644
--- a/dsptoolbox/effects/effects.py
+++ b/dsptoolbox/effects/effects.py
@@ -1017,7 +1017,7 @@ class Compressor(AudioEffect):
             td = self._restore_rms_values(td)
 
         # Post-compression gain
-        td = self._add_gain_in_db(td, self.pre_gain_db)
+        td = self._add_gain_in_db(td, self.post_gain_db)
 
         return signal.copy_with_new_time_data(td)
 
-- 
2.43.0


From 937118ff2112a27959bd15c3b75aec29bf390c98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:55 +0000
Subject: [PATCH 148/225] fix: compressor does not swap attack and release and
 supports times of zero

---
 dsptoolbox/effects/_effects.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/dsptoolbox/effects/_effects.py b/dsptoolbox/effects/_effects.py
index f760d73..b827b7c 100644
--- a/dsptoolbox/effects/_effects.py
+++ b/dsptoolbox/effects/_effects.py
@@ -114,8 +114,12 @@ def _compressor(
     )
 
     # RMS detector
-    attack_coeff = _get_smoothing_factor_ema(attack_samples, 1)
-    release_coeff = _get_smoothing_factor_ema(release_samples, 1)
+    attack_coeff = (
+        _get_smoothing_factor_ema(attack_samples, 1) if attack_samples > 0 else 1.0
+    )
+    release_coeff = (
+        _get_smoothing_factor_ema(release_samples, 1) if release_samples > 0 else 1.0
+    )
 
     min_value_power = from_db(-300.0, False)
 
@@ -138,7 +142,7 @@ def _compressor(
             gain_factor = 10 ** ((samp_db_comp - samp_db) / 20)
 
             # Gain depending on attack and release
-            if gain_factor > momentary_gain:
+            if (gain_factor < momentary_gain) == downward_compression:
                 coeff = attack_coeff
             else:
                 coeff = release_coeff
-- 
2.43.0


From 280d6cf7d9e746d96f1d5c5f140363997fa14ab6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:55 +0000
Subject: [PATCH 149/225] fix: compressor mixes with the clean signal

---
 dsptoolbox/effects/_effects.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dsptoolbox/effects/_effects.py b/dsptoolbox/effects/_effects.py
index b827b7c..807a4f3 100644
--- a/dsptoolbox/effects/_effects.py
+++ b/dsptoolbox/effects/_effects.py
@@ -149,7 +149,7 @@ def _compressor(
             momentary_gain = coeff * gain_factor + (1 - coeff) * momentary_gain
 
             # Apply gain
-            x_[i, n] *= momentary_gain
+            x_[i, n] *= momentary_gain * mix_compressed + 1 - mix_compressed
 
     if single_channel:
         x_ = x_.squeeze()
-- 
2.43.0


From 5b48eeded5265217011f31c65ad832f719785a0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:55 +0000
Subject: [PATCH 150/225] fix: compression with a hard knee is defined at the
 threshold

---
 dsptoolbox/effects/_effects.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/dsptoolbox/effects/_effects.py b/dsptoolbox/effects/_effects.py
index 807a4f3..6ea8fee 100644
--- a/dsptoolbox/effects/_effects.py
+++ b/dsptoolbox/effects/_effects.py
@@ -179,7 +179,9 @@ def _get_knee_func(
                 if x - T < -W / 2:
                     return x
                 elif np.abs(x - T) <= W / 2:
-                    return x - (1 / R - 1) * (x - T - W / 2) ** 2 / 2 / W
+                    if W == 0.0:
+                        return x
+                    return x + (1 / R - 1) * (x - T + W / 2) ** 2 / 2 / W
                 elif x - T > W / 2:
                     return T + (x - T) / R
 
@@ -191,6 +193,8 @@ def _get_knee_func(
             y[second_section] = (
                 x[second_section]
                 + (1 / R - 1) * (x[second_section] - T + W / 2) ** 2 / 2 / W
+                if W > 0.0
+                else x[second_section]
             )
 
             third_section = x - T > W / 2
@@ -204,6 +208,8 @@ def _get_knee_func(
                 if x - T < -W / 2:
                     return T + (x - T) / R
                 elif np.abs(x - T) <= W / 2:
+                    if W == 0.0:
+                        return x
                     return x - (1 / R - 1) * (x - T - W / 2) ** 2 / 2 / W
                 elif x - T > W / 2:
                     return x
@@ -216,6 +222,8 @@ def _get_knee_func(
             y[second_section] = (
                 x[second_section]
                 - (1 / R - 1) * (x[second_section] - T - W / 2) ** 2 / 2 / W
+                if W > 0.0
+                else x[second_section]
             )
 
             third_section = x - T > W / 2
-- 
2.43.0


From 0d6ca94cf875bbcf095dc2a3ae3b982c74b7db47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:55 +0000
Subject: [PATCH 151/225] fix: frequency of a musical rhythm increases with the
 tempo

---
 dsptoolbox/effects/_effects.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dsptoolbox/effects/_effects.py b/dsptoolbox/effects/_effects.py
index 6ea8fee..147fae0 100644
--- a/dsptoolbox/effects/_effects.py
+++ b/dsptoolbox/effects/_effects.py
@@ -531,13 +531,13 @@ def get_frequency_from_musical_rhythm(note, bpm):
         factor = 1 / 8
     if "quintuplet" in note:
         factor = 1 / 5
-    if "3" in note:
+    if "3" in note.replace("32th", ""):
         factor *= 2 / 3
     if "dotted" in note:
         factor *= 1.5
     if factor == 0:
         raise ValueError("No valid note description was passed")
-    return 60 / bpm / factor
+    return bpm / 60 / factor
 
 
 def get_time_period_from_musical_rhythm(note, bpm):
-- 
2.43.0


From 5b392ba89f280c7972a8c45b3f87300903dd044d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:55 +0000
Subject: [PATCH 152/225] fix: amplitude of the LFO does not depend on the
 length and stays in [-1, 1]

---
 dsptoolbox/effects/_effects.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/dsptoolbox/effects/_effects.py b/dsptoolbox/effects/_effects.py
index 147fae0..59535cf 100644
--- a/dsptoolbox/effects/_effects.py
+++ b/dsptoolbox/effects/_effects.py
@@ -448,7 +448,7 @@ def _square_oscillator(freq, fs, length, random_phase, smooth):
         waveform = np.sign(x)
     else:
         smooth *= 0.25 / 10  # Adapt to some useful range
-        waveform = np.arctan(x / smooth)
+        waveform = np.arctan(x / smooth) * (2 / np.pi)
     return waveform
 
 
@@ -467,8 +467,12 @@ def _sawtooth_oscillator(freq, fs, length, random_phase, smooth):
         # Adapt range
         smooth = (12 - smooth) ** 1.5
         smooth = max(1, smooth)
-        waveform = np.arcsin(np.tanh(np.cos(x) * smooth) * np.sin(x))
-        waveform /= np.abs(np.max(waveform))
+
+        def func(x):
+            return np.arcsin(np.tanh(np.cos(x) * smooth) * np.sin(x))
+
+        # Normalize with the maximum of a whole period
+        waveform = func(x) / np.max(func(np.linspace(0, np.pi, 10_001)))
     return waveform
 
 
@@ -484,7 +488,8 @@ def _triangle_oscillator(freq, fs, length, random_phase, smooth):
     else:
         smooth *= 0.08 / 10  # Adapt to some useful range
         waveform = 1 - 2 / np.pi * np.arccos((1 - smooth) * x)
-    waveform /= np.max(np.abs(waveform))
+        # Normalize with the maximum of a whole period
+        waveform /= 1 - 2 / np.pi * np.arccos(1 - smooth)
     return waveform
 
 
-- 
2.43.0


From d8666335fe316bae5114425e932ef8e3ff798a70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:55 +0000
Subject: [PATCH 153/225] fix: tremolo accepts arrays as modulators

---
 dsptoolbox/effects/effects.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dsptoolbox/effects/effects.py b/dsptoolbox/effects/effects.py
index 14e12cb..aa6901f 100644
--- a/dsptoolbox/effects/effects.py
+++ b/dsptoolbox/effects/effects.py
@@ -1059,9 +1059,9 @@ class Tremolo(AudioEffect):
         if modulator is not None:
             assert type(modulator) in (
                 LFO,
-                NDArray[np.float64],
+                np.ndarray,
             ), "Unsupported modulator type. Use LFO or numpy.ndarray"
-            if type(modulator) is NDArray[np.float64]:
+            if type(modulator) is np.ndarray:
                 modulator = modulator.squeeze()
                 assert modulator.ndim == 1, "Modulator signal can have only one channel"
             self.modulator = modulator
-- 
2.43.0


From 9af3a7fb65c12e14ed6bbef826e36b67a71e30e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:55 +0000
Subject: [PATCH 154/225] fix: chorus accepts arrays as modulators

---
 dsptoolbox/effects/effects.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/dsptoolbox/effects/effects.py b/dsptoolbox/effects/effects.py
index aa6901f..49a93bf 100644
--- a/dsptoolbox/effects/effects.py
+++ b/dsptoolbox/effects/effects.py
@@ -1188,11 +1188,14 @@ class Chorus(AudioEffect):
         if modulators is not None:
             if type(modulators) in (list, tuple):
                 nv_mod = len(modulators)
-            elif type(modulators) is NDArray[np.float64]:
-                modulators = np.atleast_2d(modulators)
+            elif type(modulators) is np.ndarray:
+                if modulators.ndim < 2:
+                    modulators = np.atleast_1d(modulators)[..., None]
                 nv_mod = modulators.shape[1]
             else:
                 nv_mod = 1
+        elif type(self.modulators) is np.ndarray:
+            nv_mod = self.modulators.shape[1]
         else:
             nv_mod = len(self.modulators)
 
@@ -1217,11 +1220,10 @@ class Chorus(AudioEffect):
                 LFO,
                 list,
                 tuple,
-                NDArray[np.float64],
+                np.ndarray,
             ), "Unsupported modulators type. Use LFO or numpy.ndarray"
-            if type(modulators) is NDArray[np.float64]:
-                modulators = np.atleast_2d(modulators)
-                modulators.shape[1] == self.number_of_voices, (
+            if type(modulators) is np.ndarray:
+                assert modulators.shape[1] == self.number_of_voices, (
                     "The modulators signal must "
                     + "have the same number of channels as there are "
                     + f"voices {self.number_of_voices}"
@@ -1298,7 +1300,7 @@ class Chorus(AudioEffect):
         le = len(signal)
 
         # Get valid modulation signals
-        if type(self.modulators) is not NDArray[np.float64]:
+        if type(self.modulators) is not np.ndarray:
             modulation = np.zeros((le, self.number_of_voices))
             for ind, m in enumerate(self.modulators):
                 modulation[:, ind] = (
-- 
2.43.0


From c15745e49494c6343cad4ff88cc1f964465cf271 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:55 +0000
Subject: [PATCH 155/225] fix: number of voices of the chorus can be changed
 with a single parameter

---
 dsptoolbox/effects/effects.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/dsptoolbox/effects/effects.py b/dsptoolbox/effects/effects.py
index 49a93bf..65d6b39 100644
--- a/dsptoolbox/effects/effects.py
+++ b/dsptoolbox/effects/effects.py
@@ -1254,6 +1254,14 @@ class Chorus(AudioEffect):
             if len(self.depths_ms) == 1:
                 self.depths_ms = np.repeat(self.depths_ms, self.number_of_voices)
 
+        # Parameters of a single voice are used for all voices
+        if len(self.base_delays_ms) == 1:
+            self.base_delays_ms = np.repeat(self.base_delays_ms, self.number_of_voices)
+        if len(self.depths_ms) == 1:
+            self.depths_ms = np.repeat(self.depths_ms, self.number_of_voices)
+        if type(self.modulators) is not np.ndarray and len(self.modulators) == 1:
+            self.modulators = [self.modulators[0]] * self.number_of_voices
+
         if mix_percent is not None:
             mix_percent /= 100
             assert (
-- 
2.43.0


From 748df64d096e930b94163c41344ab4e9ebc4a71b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:55 +0000
Subject: [PATCH 156/225] fix: voices of the chorus are delayed and do not
 precede the signal

---
 dsptoolbox/effects/effects.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/dsptoolbox/effects/effects.py b/dsptoolbox/effects/effects.py
index 65d6b39..2dc9df9 100644
--- a/dsptoolbox/effects/effects.py
+++ b/dsptoolbox/effects/effects.py
@@ -1323,20 +1323,20 @@ class Chorus(AudioEffect):
         max_delay_samples = np.abs(modulation).max()
 
         # Original time data
-        td = _pad_trim(signal.time_data, le + max_delay_samples)
+        td = signal.time_data
         self._save_peak_values(td)
-        new_td = np.zeros_like(td)
+        new_td = td.copy()
 
-        # Add modulated voices. Could be improved...
-        for ind in np.arange(td.shape[0] - max_delay_samples):
-            new_td[ind, :] = td[ind, :]
-            for v in range(self.number_of_voices):
-                new_td[ind, :] += td[ind + modulation[ind, v], :]
+        # Add modulated voices from a signal padded at both ends
+        padded = np.pad(td, ((max_delay_samples, max_delay_samples), (0, 0)))
+        indices = np.arange(le) + max_delay_samples
+        for v in range(self.number_of_voices):
+            new_td += padded[indices - modulation[:, v], :]
 
         # Mix with clean signal
         new_td = new_td * self.mix + td * (1 - self.mix)
 
-        new_td = self._restore_peak_values(_pad_trim(new_td, le))
+        new_td = self._restore_peak_values(new_td)
 
         return signal.copy_with_new_time_data(new_td)
 
-- 
2.43.0


From 0b12ffd4566ecb53f441397cd2e31acb2f341d50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:55 +0000
Subject: [PATCH 157/225] fix: delay leaves unset parameters unchanged, keeps
 feedback in its range and accepts callables

---
 dsptoolbox/effects/effects.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/dsptoolbox/effects/effects.py b/dsptoolbox/effects/effects.py
index 2dc9df9..a92c894 100644
--- a/dsptoolbox/effects/effects.py
+++ b/dsptoolbox/effects/effects.py
@@ -1369,11 +1369,13 @@ class DigitalDelay(AudioEffect):
 
     def __set_parameters(self, delay_time_ms: float, feedback: int):
         """Internal method to change parameters."""
-        assert delay_time_ms > 0, "Delay time must be larger than 0"
-        self.delay_ms = delay_time_ms
+        if delay_time_ms is not None:
+            assert delay_time_ms > 0, "Delay time must be larger than 0"
+            self.delay_ms = delay_time_ms
 
-        assert feedback > 0, "Feedback must be larger than one"
-        self.feedback = feedback
+        if feedback is not None:
+            assert feedback >= 0 and feedback < 1, "Feedback must be in [0, 1["
+            self.feedback = feedback
 
     def set_parameters(
         self, delay_time_ms: float | None = None, feedback: float | None = None
@@ -1410,7 +1412,8 @@ class DigitalDelay(AudioEffect):
         """
         if saturation is None:
             saturation = "digital"
-        saturation = saturation.lower()
+        if isinstance(saturation, str):
+            saturation = saturation.lower()
         if saturation == "digital":
 
             def func(x):
@@ -1422,8 +1425,8 @@ class DigitalDelay(AudioEffect):
                 return 0.5 * np.arctan(2 * x)
 
         else:
-            assert (
-                type(saturation(1.0)) == float
+            assert callable(saturation) and isinstance(
+                saturation(1.0), float
             ), "Saturation function might not be valid"
 
             def func(x):
-- 
2.43.0


From b73a0cec47213a0c34be0e0d87a49a6ac5eb3338 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:57 +0000
Subject: [PATCH 158/225] fix: static spectral subtraction uses the power of
 the noise

---
 dsptoolbox/effects/effects.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/dsptoolbox/effects/effects.py b/dsptoolbox/effects/effects.py
index a92c894..5aea009 100644
--- a/dsptoolbox/effects/effects.py
+++ b/dsptoolbox/effects/effects.py
@@ -466,10 +466,11 @@ class SpectralSubtractor(AudioEffect):
                     window_type=self.window_type,
                     scaling=SpectrumScaling.FFTBackward,
                 )
-                _, noise_psd = noise["noise"].get_spectrum()
+                # Amplitude to power
+                noise_psd = np.abs(noise["noise"].get_spectrum()[1]) ** 2.0
             else:
+                # It is already raised to the power of 2!
                 noise_psd = self.spectrum_to_subtract.copy()
-            # It is already raised to the power of 2!
             noise_psd = np.abs(noise_psd).squeeze() ** (self.subtraction_exponent / 2)
             for i in range(td_spec.shape[1]):
                 temp = np.clip(
-- 
2.43.0


From 566f46e2f4715e4f93be3c918e7d43489518a470 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:31 +0000
Subject: [PATCH 159/225] fix: Welch's method with a single sample

---
 dsptoolbox/standard/_spectral_methods.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dsptoolbox/standard/_spectral_methods.py b/dsptoolbox/standard/_spectral_methods.py
index 43cba28..2ae0f9d 100644
--- a/dsptoolbox/standard/_spectral_methods.py
+++ b/dsptoolbox/standard/_spectral_methods.py
@@ -66,11 +66,11 @@ def _welch(
     autospectrum = y is None
 
     if type(x) is not NDArray[np.float64]:
-        x = np.asarray(x).squeeze()
+        x = np.atleast_1d(np.asarray(x).squeeze())
 
     if not autospectrum:
         if type(y) is not NDArray[np.float64]:
-            y = np.asarray(y).squeeze()
+            y = np.atleast_1d(np.asarray(y).squeeze())
         assert x.shape == y.shape, "Shapes of data do not match"
         # NOTE: Computing the spectrum in a vectorized manner for all channels
         # simultaneously does not seem to be faster than doing it sequentally
-- 
2.43.0


From b5d54139133038b1d059491ce9ef52e23ab949a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:37 +0000
Subject: [PATCH 160/225] fix: Itakura-Saito measure uses the natural logarithm

---
 dsptoolbox/distances/_distances.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dsptoolbox/distances/_distances.py b/dsptoolbox/distances/_distances.py
index c99fd10..780525e 100644
--- a/dsptoolbox/distances/_distances.py
+++ b/dsptoolbox/distances/_distances.py
@@ -57,7 +57,7 @@ def _itakura_saito_measure(
 
     """
     assert x.shape == y.shape, "Power spectra have different lengths"
-    ism = simpson(x / y - np.log10(x / y) - 1, x=f)
+    ism = simpson(x / y - np.log(x / y) - 1, x=f)
     return ism
 
 
-- 
2.43.0


From 7ab85e7f35bac58257c444a686d4825b7184cf02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:37 +0000
Subject: [PATCH 161/225] fix: spectral distances leave the spectrum parameters
 of the signals unchanged

---
 dsptoolbox/distances/distances.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dsptoolbox/distances/distances.py b/dsptoolbox/distances/distances.py
index 7386460..3262106 100644
--- a/dsptoolbox/distances/distances.py
+++ b/dsptoolbox/distances/distances.py
@@ -80,6 +80,7 @@ def log_spectral(
             "Upper bound for " + "frequency must be smaller than the nyquist frequency"
         )
         assert not any(f_range_hz < 0), "Frequencies in range must be " + "positive"
+    insig1, insig2 = insig1.copy(), insig2.copy()
     insig1.set_spectrum_parameters(method=method, **spectrum_parameters)
     insig2.set_spectrum_parameters(method=method, **spectrum_parameters)
     f, spec1 = insig1.get_spectrum()
@@ -166,6 +167,7 @@ def itakura_saito(
             "Upper bound for " + "frequency must be smaller than the nyquist frequency"
         )
         assert not any(f_range_hz < 0), "Frequencies in range must be " + "positive"
+    insig1, insig2 = insig1.copy(), insig2.copy()
     insig1.set_spectrum_parameters(method=method, **spectrum_parameters)
     insig2.set_spectrum_parameters(method=method, **spectrum_parameters)
     f, spec1 = insig1.get_spectrum()
-- 
2.43.0


From 84037f75a1e3ceb19e7df95b5421a2877b88fe24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:37 +0000
Subject: [PATCH 162/225] fix: spectral distances include the upper limit of
 the frequency range

---
 dsptoolbox/distances/distances.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dsptoolbox/distances/distances.py b/dsptoolbox/distances/distances.py
index 3262106..5ee4820 100644
--- a/dsptoolbox/distances/distances.py
+++ b/dsptoolbox/distances/distances.py
@@ -93,6 +93,7 @@ def log_spectral(
         psd2 = psd2**2
 
     ids = find_nearest_points_index_in_vector(f_range_hz, f)
+    ids[1] += 1  # Include upper limit
     f = f[ids[0] : ids[1]]
 
     distances = np.zeros(insig1.number_of_channels)
@@ -180,6 +181,7 @@ def itakura_saito(
         psd2 = psd2**2
 
     ids = find_nearest_points_index_in_vector(f_range_hz, f)
+    ids[1] += 1  # Include upper limit
     f = f[ids[0] : ids[1]]
 
     distances = np.zeros(insig1.number_of_channels)
-- 
2.43.0


From 8900a33a688fa3b1d32e0749b115dcba45bacbd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:37 +0000
Subject: [PATCH 163/225] fix: segmental SNR does not sort the arrays passed

---
 dsptoolbox/distances/distances.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/dsptoolbox/distances/distances.py b/dsptoolbox/distances/distances.py
index 5ee4820..0bd01c3 100644
--- a/dsptoolbox/distances/distances.py
+++ b/dsptoolbox/distances/distances.py
@@ -344,8 +344,7 @@ def fw_snr_seg(
         multichannel = True
     # Frequency range
     assert len(f_range_hz) == 2, "Frequency range must have lower and upper bounds"
-    f_range = np.asarray(f_range_hz)
-    f_range.sort()
+    f_range = np.sort(f_range_hz)
     assert f_range[1] < fs_hz // 2, (
         f"Upper frequency range {f_range[1]} must be smaller than nyquist "
         + f"frequency {fs_hz // 2}"
@@ -353,8 +352,7 @@ def fw_snr_seg(
     assert f_range[0] > 0, "Frequency range must be positive"
     # SNR range
     assert len(snr_range_db) == 2, "SNR range must have lower and upper bounds"
-    snr_range_db = np.asarray(snr_range_db)
-    snr_range_db.sort()
+    snr_range_db = np.sort(snr_range_db)
     # Time window
     length_samp = int(75e-3 * fs_hz)
     if length_samp % 2 == 1:
-- 
2.43.0


From cf6ffc3f4ad47a6c86843338eb4ea2eea455bfbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:37 +0000
Subject: [PATCH 164/225] fix: segmental SNR leaves silent frames out

---
 dsptoolbox/distances/_distances.py | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/dsptoolbox/distances/_distances.py b/dsptoolbox/distances/_distances.py
index 780525e..ba5c8c0 100644
--- a/dsptoolbox/distances/_distances.py
+++ b/dsptoolbox/distances/_distances.py
@@ -154,6 +154,7 @@ def _fw_snr_seg_per_channel(
     xhat = _pad_trim(xhat, length_signal + pad_samples)
 
     fw_snr_seg = 0
+    active_frames = 0
     position = 0
     # Loop for time frames
     for _ in range(n_frames):
@@ -172,14 +173,21 @@ def _fw_snr_seg_per_channel(
 
             # Normalization of spectra: probably for avoiding scaling
             # inconsistencies when total energy in the signals is not the same
-            X_jm /= np.sum(X_jm)
-            Xhat_jm /= np.sum(Xhat_jm)
+            X_jm /= max(np.sum(X_jm), eps)
+            Xhat_jm /= max(np.sum(Xhat_jm), eps)
 
-            snr_jm += np.log10(X_jm**2 / (X_jm - Xhat_jm + eps) ** 2) * W_jm
+            snr_jm += np.log10((X_jm + eps) ** 2 / (X_jm - Xhat_jm + eps) ** 2) * W_jm
             weights_jm += W_jm
 
+        # Frames without any signal are not regarded
+        active = weights_jm > 0.0
+        if not np.any(active):
+            position += step_samples
+            continue
+        active_frames += 1
+
         # Mean SNR over all frequencies
-        snr_frame = np.mean(10 * snr_jm / weights_jm)
+        snr_frame = np.mean(10 * snr_jm[active] / weights_jm[active])
 
         # Range dB
         if snr_frame < snr_range_db[0]:
@@ -191,5 +199,4 @@ def _fw_snr_seg_per_channel(
         # Updating position
         position += step_samples
 
-    fw_snr_seg /= n_frames
-    return fw_snr_seg
+    return fw_snr_seg / active_frames if active_frames > 0 else np.nan
-- 
2.43.0


From 1e845c931cb32696ad611a223e444b40aa400dc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:03 +0000
Subject: [PATCH 165/225] fix: euclidean distances between close points are
 exact

---
 dsptoolbox/helpers/other.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/dsptoolbox/helpers/other.py b/dsptoolbox/helpers/other.py
index 9964ce1..98ec551 100644
--- a/dsptoolbox/helpers/other.py
+++ b/dsptoolbox/helpers/other.py
@@ -146,11 +146,9 @@ def _euclidean_distance_matrix(x: NDArray[np.float64], y: NDArray[np.float64]):
     """
     assert x.ndim == 2 and y.ndim == 2, "Inputs must have exactly two dimensions"
     assert x.shape[1] == y.shape[1], "Dimensions do not match"
-    return np.sqrt(
-        np.sum(x**2, axis=1, keepdims=True)
-        + np.sum(y.T**2, axis=0, keepdims=True)
-        - 2 * x @ y.T
-    )
+    # Differences are used directly (instead of the expanded binomial) in order
+    # to avoid cancellation for points that are close to each other
+    return np.sqrt(np.sum((x[:, None, :] - y[None, :, :]) ** 2, axis=-1))
 
 
 def _get_fractional_octave_bandwidth(
-- 
2.43.0


From 23df792f7f17a980d3babe921185f2a84ad70ea9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:03 +0000
Subject: [PATCH 166/225] fix: grids and arrays with a single point or line
 entry are supported

---
 dsptoolbox/beamforming/_beamforming.py | 15 +++++++++------
 dsptoolbox/beamforming/beamforming.py  | 20 ++++++++++----------
 2 files changed, 19 insertions(+), 16 deletions(-)

diff --git a/dsptoolbox/beamforming/_beamforming.py b/dsptoolbox/beamforming/_beamforming.py
index 4967479..85725b3 100644
--- a/dsptoolbox/beamforming/_beamforming.py
+++ b/dsptoolbox/beamforming/_beamforming.py
@@ -41,9 +41,9 @@ class BasePoints:
         """
         for i in ("x", "y", "z"):
             assert i in positions, f"{i} values are missing"
-        x = np.asarray(positions["x"]).squeeze()[None, ...]
-        y = np.asarray(positions["y"]).squeeze()[None, ...]
-        z = np.asarray(positions["z"]).squeeze()[None, ...]
+        x = np.atleast_1d(np.squeeze(positions["x"]))[None, ...]
+        y = np.atleast_1d(np.squeeze(positions["y"]))[None, ...]
+        z = np.atleast_1d(np.squeeze(positions["z"]))[None, ...]
         assert (
             x.shape == y.shape and x.shape == z.shape
         ), "Shapes of x, y or z are not compatible"
@@ -101,17 +101,20 @@ class BasePoints:
         Returns
         -------
         distances : NDArray[np.float64]
-            Distances with shape (points, new_points).
+            Distances with shape (points, new_points). If a single point is
+            passed as a vector, the shape is (points).
 
         """
         if type(point) is not NDArray[np.float64]:
             point = np.asarray(point)
-        if point.ndim == 1:
+        single_point = point.ndim == 1
+        if single_point:
             point = point[None, ...]
         assert (
             point.shape[1] == self.coordinates.shape[1]
         ), f"Invalid shapes: {point.shape}, {self.coordinates.shape}"
-        return _euclidean_distance_matrix(self.coordinates, point).squeeze()
+        distances = _euclidean_distance_matrix(self.coordinates, point)
+        return distances[:, 0] if single_point else distances
 
     # ======== Plotting =======================================================
     def plot_points(self, projection: str | None = None):
diff --git a/dsptoolbox/beamforming/beamforming.py b/dsptoolbox/beamforming/beamforming.py
index b1ef07c..e6ef82e 100644
--- a/dsptoolbox/beamforming/beamforming.py
+++ b/dsptoolbox/beamforming/beamforming.py
@@ -127,8 +127,8 @@ class Regular2DGrid(Grid):
         value3 = np.asarray(value3).squeeze()
         assert value3.ndim == 0, "value3 can only be a single value"
 
-        line1 = np.asarray(line1).squeeze()
-        line2 = np.asarray(line2).squeeze()
+        line1 = np.atleast_1d(np.squeeze(line1))
+        line2 = np.atleast_1d(np.squeeze(line2))
 
         # For reconstructing the matrix later
         self.original_lengths = (len(line1), len(line2))
@@ -248,9 +248,9 @@ class Regular3DGrid(Grid):
         - `plot_map()`: Plots a given map (reconstructed or flattened).
 
         """
-        line_x = np.asarray(line_x).squeeze()
-        line_y = np.asarray(line_y).squeeze()
-        line_z = np.asarray(line_z).squeeze()
+        line_x = np.atleast_1d(np.squeeze(line_x))
+        line_y = np.atleast_1d(np.squeeze(line_y))
+        line_z = np.atleast_1d(np.squeeze(line_z))
         self.lines = (line_x, line_y, line_z)
         assert all([n.ndim == 1 for n in self.lines]), "Shape of lines is invalid"
 
@@ -875,7 +875,7 @@ class BeamformerDASFrequency(BeamformerGridded):
         if number_frequency_bins > 1:
             map = simpson(map, dx=f[1] - f[0], axis=1)
         else:
-            map = map.squeeze()
+            map = map[:, 0]
         self.map = self.grid.reconstruct_map_shape(map)
         return self.map.copy()
 
@@ -1002,7 +1002,7 @@ class BeamformerCleanSC(BeamformerGridded):
         if number_frequency_bins > 1:
             map = simpson(map, dx=f[1] - f[0], axis=1)
         else:
-            map = map.squeeze()
+            map = map[:, 0]
         self.map = self.grid.reconstruct_map_shape(map)
         return self.map.copy()
 
@@ -1119,7 +1119,7 @@ class BeamformerOrthogonal(BeamformerGridded):
         if number_frequency_bins > 1:
             map = simpson(map, dx=f[1] - f[0], axis=1)
         else:
-            map = map.squeeze()
+            map = map[:, 0]
         self.map = self.grid.reconstruct_map_shape(map)
         return self.map.copy()
 
@@ -1215,7 +1215,7 @@ class BeamformerFunctional(BeamformerGridded):
         if number_frequency_bins > 1:
             map = simpson(map, dx=f[1] - f[0], axis=1)
         else:
-            map = map.squeeze()
+            map = map[:, 0]
         self.map = self.grid.reconstruct_map_shape(map)
         return self.map.copy()
 
@@ -1309,7 +1309,7 @@ class BeamformerMVDR(BeamformerGridded):
         if number_frequency_bins > 1:
             map = simpson(map, dx=f[1] - f[0], axis=1)
         else:
-            map = map.squeeze()
+            map = map[:, 0]
         self.map = self.grid.reconstruct_map_shape(map)
         return self.map.copy()
 
-- 
2.43.0


From 0bb065a99651f16f42a2b21c7374fd58cc508c38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:03 +0000
Subject: [PATCH 167/225] fix: plot_map of regular grids works

---
 dsptoolbox/beamforming/beamforming.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/dsptoolbox/beamforming/beamforming.py b/dsptoolbox/beamforming/beamforming.py
index e6ef82e..ceb9a99 100644
--- a/dsptoolbox/beamforming/beamforming.py
+++ b/dsptoolbox/beamforming/beamforming.py
@@ -210,7 +210,6 @@ class Regular2DGrid(Grid):
             zlabel="dBFS",
             colorbar=True,
             lower_origin=True,
-            returns=True,
         )
         return fig, ax
 
@@ -358,7 +357,6 @@ class Regular3DGrid(Grid):
             zlabel="dBFS",
             colorbar=True,
             lower_origin=True,
-            returns=True,
         )
         return fig, ax
 
-- 
2.43.0


From 4ea4f968e7c10cd817a6f6c2d380a834d97003e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:03 +0000
Subject: [PATCH 168/225] fix: orthogonal beamformer accumulates eigenvalues
 located at the same point

---
 dsptoolbox/beamforming/beamforming.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dsptoolbox/beamforming/beamforming.py b/dsptoolbox/beamforming/beamforming.py
index ceb9a99..1449438 100644
--- a/dsptoolbox/beamforming/beamforming.py
+++ b/dsptoolbox/beamforming/beamforming.py
@@ -1111,7 +1111,7 @@ class BeamformerOrthogonal(BeamformerGridded):
                 # Find largest value
                 source_ind = np.argmax(eig_map[eig, :, find])
                 # Scale by eigenvalue and pass to final map
-                map[source_ind, find] = eig_map[eig, source_ind, find] * w[-eig - 1]
+                map[source_ind, find] += eig_map[eig, source_ind, find] * w[-eig - 1]
 
         # Integrate over all frequencies
         if number_frequency_bins > 1:
-- 
2.43.0


From 426f0ead92e5d6b8730ba49251ea71f211fbbf98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:03 +0000
Subject: [PATCH 169/225] fix: CLEAN-SC removes the whole source component when
 the CSM diagonal is kept

---
 dsptoolbox/beamforming/_beamforming.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/dsptoolbox/beamforming/_beamforming.py b/dsptoolbox/beamforming/_beamforming.py
index 85725b3..e1a5b58 100644
--- a/dsptoolbox/beamforming/_beamforming.py
+++ b/dsptoolbox/beamforming/_beamforming.py
@@ -275,11 +275,15 @@ def _clean_sc_deconvolve(
         w_max_squared = w_max.conjugate() * w_max
         D_ = D[1, :, :] @ w_max / maximum_power
 
-        # Computation of G, according to [1], only a couple iterations
-        # are needed; following acoular, 20 are used here
-        for _ in range(20):
-            H = h_.conjugate() * h_
-            h_ = (D_ + H * w_max) / np.sqrt(1 + H @ w_max_squared)
+        if remove_diagonal_csm:
+            # Computation of G, according to [1], only a couple iterations
+            # are needed; following acoular, 20 are used here
+            for _ in range(20):
+                H = h_.conjugate() * h_
+                h_ = (D_ + H * w_max) / np.sqrt(1 + H @ w_max_squared)
+        else:
+            # With the complete CSM, the source component is given directly
+            h_ = D_
 
         G = np.outer(h_, h_.conjugate()) * maximum_power
 
-- 
2.43.0


From 88692346c0461a54548bb73582bcefaa5d8e3c30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:03 +0000
Subject: [PATCH 170/225] fix: beamformers report their type

---
 dsptoolbox/beamforming/beamforming.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dsptoolbox/beamforming/beamforming.py b/dsptoolbox/beamforming/beamforming.py
index 1449438..9d2eb3a 100644
--- a/dsptoolbox/beamforming/beamforming.py
+++ b/dsptoolbox/beamforming/beamforming.py
@@ -648,6 +648,8 @@ class SteeringVector:
 class BaseBeamformer:
     """Base class for a beamformer."""
 
+    beamformer_type = "Base"
+
     def __init__(
         self, multi_channel_signal: Signal, mic_array: MicArray, c: float = 343
     ):
@@ -675,7 +677,6 @@ class BaseBeamformer:
         self.signal = multi_channel_signal
         self.mics = mic_array
         self.c = c
-        self.beamformer_type = "Base"
 
     # ======== Prints and plots ===============================================
     def plot_setting(self) -> tuple[Figure, Axes]:
-- 
2.43.0


From 063d4cc035cff012f29261e17db2b57cdadfa835 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:03 +0000
Subject: [PATCH 171/225] fix: mixing sources on an array leaves the list and
 the sources unchanged

---
 dsptoolbox/beamforming/beamforming.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/dsptoolbox/beamforming/beamforming.py b/dsptoolbox/beamforming/beamforming.py
index 9d2eb3a..0c06c6c 100644
--- a/dsptoolbox/beamforming/beamforming.py
+++ b/dsptoolbox/beamforming/beamforming.py
@@ -1489,10 +1489,9 @@ def mix_sources_on_array(
     # Take first source
     multi_channel_sig = sources[0].get_signals_on_array(mics, c)
     total_length_samples = multi_channel_sig.time_data.shape[0]
-    sources.pop(0)
 
     # Add all other sources progressively checking for shortest duration
-    for s in sources:
+    for s in sources[1:]:
         # Warning if lengths do not match
         if total_length_samples != s.emitted_signal.time_data.shape[0]:
             warn(
@@ -1503,7 +1502,9 @@ def mix_sources_on_array(
                 total_length_samples, s.emitted_signal.time_data.shape[0]
             )
             multi_channel_sig = pad_trim(multi_channel_sig, total_length_samples)
-            s.emitted_signal = pad_trim(s.emitted_signal, total_length_samples)
+            s = MonopoleSource(
+                pad_trim(s.emitted_signal, total_length_samples), s.coordinates
+            )
         # Add to multi-channel data
         ns = s.get_signals_on_array(mics, c)
         multi_channel_sig.time_data += ns.time_data
-- 
2.43.0


From 3ecc336571c0bc41d5c56fa234c5e5d651bb8a6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:00 +0000
Subject: [PATCH 172/225] fix: mixing sources on an array keeps their relative
 levels

---
 dsptoolbox/beamforming/beamforming.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/dsptoolbox/beamforming/beamforming.py b/dsptoolbox/beamforming/beamforming.py
index 0c06c6c..a71910b 100644
--- a/dsptoolbox/beamforming/beamforming.py
+++ b/dsptoolbox/beamforming/beamforming.py
@@ -1489,6 +1489,8 @@ def mix_sources_on_array(
     # Take first source
     multi_channel_sig = sources[0].get_signals_on_array(mics, c)
     total_length_samples = multi_channel_sig.time_data.shape[0]
+    # Accumulate outside of the signal, so that no partial sum gets normalized
+    new_time_data = multi_channel_sig.time_data
 
     # Add all other sources progressively checking for shortest duration
     for s in sources[1:]:
@@ -1501,14 +1503,13 @@ def mix_sources_on_array(
             total_length_samples = min(
                 total_length_samples, s.emitted_signal.time_data.shape[0]
             )
-            multi_channel_sig = pad_trim(multi_channel_sig, total_length_samples)
+            new_time_data = new_time_data[:total_length_samples]
             s = MonopoleSource(
                 pad_trim(s.emitted_signal, total_length_samples), s.coordinates
             )
         # Add to multi-channel data
-        ns = s.get_signals_on_array(mics, c)
-        multi_channel_sig.time_data += ns.time_data
-    return multi_channel_sig
+        new_time_data = new_time_data + s.get_signals_on_array(mics, c).time_data
+    return multi_channel_sig.copy_with_new_time_data(new_time_data)
 
 
 # ========== Steering vector formulations =====================================
-- 
2.43.0


From 32bf47366a2cac67586f07f267e24f1d294e4ca9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:00 +0000
Subject: [PATCH 173/225] fix: delay-and-sum in time domain keeps the relative
 levels of the grid points

---
 dsptoolbox/beamforming/beamforming.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/dsptoolbox/beamforming/beamforming.py b/dsptoolbox/beamforming/beamforming.py
index a71910b..b49f76f 100644
--- a/dsptoolbox/beamforming/beamforming.py
+++ b/dsptoolbox/beamforming/beamforming.py
@@ -1375,6 +1375,7 @@ class BeamformerDASTime(BaseBeamformer):
 
         # Start computation for each grid point
         print("...grid focusing...")
+        output = np.zeros((total_length_samples, self.grid.number_of_points))
         for ig in range(self.grid.number_of_points):
             if ig == self.grid.number_of_points // 2:
                 print(r"...50% grid done...")
@@ -1387,10 +1388,8 @@ class BeamformerDASTime(BaseBeamformer):
                     * ds[im, ig]
                 )
                 new_time_data += _pad_trim(ntd, total_length_samples)
-            new_time_data /= self.mics.number_of_points
-            out_sig.add_channel(None, new_time_data, out_sig.sampling_rate_hz)
-        out_sig.remove_channel(0)
-        return out_sig
+            output[:, ig] = new_time_data[:, 0] / self.mics.number_of_points
+        return out_sig.copy_with_new_time_data(output)
 
 
 class MonopoleSource:
-- 
2.43.0


From 89068e7d0b271ce5160140536179fd4237d4052f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:32 +0000
Subject: [PATCH 174/225] fix: beamformers use the powers of the cross-spectral
 matrix for every spectrum scaling

---
 dsptoolbox/beamforming/beamforming.py | 34 +++++++++++++++++++++++----
 1 file changed, 29 insertions(+), 5 deletions(-)

diff --git a/dsptoolbox/beamforming/beamforming.py b/dsptoolbox/beamforming/beamforming.py
index b49f76f..ab7acbd 100644
--- a/dsptoolbox/beamforming/beamforming.py
+++ b/dsptoolbox/beamforming/beamforming.py
@@ -20,6 +20,7 @@ from ..classes import Signal
 from .. import fractional_delay, append_signals, pad_trim
 from ._beamforming import BasePoints, _clean_sc_deconvolve
 from ..plots import general_matrix_plot
+from ..standard.enums import SpectrumMethod
 from .enums import SteeringVectorType
 
 try:
@@ -794,6 +795,29 @@ class BeamformerGridded(BaseBeamformer):
         self.grid = grid
         self.st_vec = steering_vector
 
+    def _get_csm_power(self) -> tuple[NDArray[np.float64], NDArray[np.complex128]]:
+        """Get the cross-spectral matrix of the signal always as powers, i.e.,
+        independently of the spectrum scaling (amplitude or power) with which
+        it is computed.
+
+        Returns
+        -------
+        f : NDArray[np.float64]
+            Frequency vector.
+        csm : NDArray[np.complex128]
+            Cross-spectral matrix with shape (frequency, channels, channels).
+
+        """
+        f, csm = self.signal.get_csm()
+        scaling = self.signal.spectrum_scaling
+        if scaling.is_amplitude_scaling() and (
+            self.signal.spectrum_method == SpectrumMethod.WelchPeriodogram
+            or scaling.has_physical_units()
+        ):
+            # Amplitude scalings deliver the square root of each entry
+            csm = csm**2.0
+        return f, csm
+
 
 class BeamformerDASFrequency(BeamformerGridded):
     """This is the base class for beamforming in frequency-domain."""
@@ -836,7 +860,7 @@ class BeamformerDASFrequency(BeamformerGridded):
         print("\n" + txt)
         print("-" * len(txt))
         print("...csm...")
-        f, csm = self.signal.get_csm()
+        f, csm = self._get_csm_power()
         if remove_csm_diagonal:
             # Account for energy loss
             csm *= self.signal.number_of_channels / (self.signal.number_of_channels - 1)
@@ -955,7 +979,7 @@ class BeamformerCleanSC(BeamformerGridded):
         print("\n" + txt)
         print("-" * len(txt))
         print("...csm...")
-        f, csm = self.signal.get_csm()
+        f, csm = self._get_csm_power()
 
         print("...Steering vector...")
         # Frequency selection, wave numbers and steering vector
@@ -1075,7 +1099,7 @@ class BeamformerOrthogonal(BeamformerGridded):
         print("\n" + txt)
         print("-" * len(txt))
         print("...csm...")
-        f, csm = self.signal.get_csm()
+        f, csm = self._get_csm_power()
 
         print("...Steering vector...")
         # Frequency selection, wave numbers and steering vector
@@ -1173,7 +1197,7 @@ class BeamformerFunctional(BeamformerGridded):
         print("\n" + txt)
         print("-" * len(txt))
         print("...csm...")
-        f, csm = self.signal.get_csm()
+        f, csm = self._get_csm_power()
 
         print("...Steering vector...")
         # Frequency selection, wave numbers and steering vector
@@ -1272,7 +1296,7 @@ class BeamformerMVDR(BeamformerGridded):
         print("\n" + txt)
         print("-" * len(txt))
         print("...csm...")
-        f, csm = self.signal.get_csm()
+        f, csm = self._get_csm_power()
 
         print("...Steering vector...")
         # Frequency selection, wave numbers and steering vector
-- 
2.43.0


From 91efe536a603b3d3c01a07b77d55d0f009f7498f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:29 +0000
Subject: [PATCH 175/225] fix: functional beamformer delivers no NaN for a CSM
 without full rank

---
 dsptoolbox/beamforming/beamforming.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/dsptoolbox/beamforming/beamforming.py b/dsptoolbox/beamforming/beamforming.py
index ab7acbd..a3ee1f1 100644
--- a/dsptoolbox/beamforming/beamforming.py
+++ b/dsptoolbox/beamforming/beamforming.py
@@ -1220,18 +1220,19 @@ class BeamformerFunctional(BeamformerGridded):
         map = np.zeros((self.grid.number_of_points, number_frequency_bins))
 
         for find in range(len(f)):
-            # SVD
-            u, s, vh = np.linalg.svd(csm[find, :, :])
-            s = np.diag(s ** (1 / gamma))
+            # Spectral decomposition – numerical noise could lead to negative
+            # eigenvalues for a CSM without full rank
+            w, v = np.linalg.eigh(csm[find, :, :])
+            w = np.clip(w, 0.0, None) ** (1 / gamma)
             # New CSM
-            csm_ = np.linalg.multi_dot([u, s, vh])
+            csm_ = (v * w) @ v.conjugate().T
             for gind in range(self.grid.number_of_points):
                 map[gind, find] = np.linalg.multi_dot(
                     [h_H[find, gind, :], csm_, h[find, :, gind]]
                 ).real
                 steering_normalization = (h_H[find, gind, :] @ h[find, :, gind]).real
                 map[gind, find] = (
-                    map[gind, find] / steering_normalization
+                    max(map[gind, find], 0.0) / steering_normalization
                 ) ** gamma * steering_normalization
 
         # Integrate over all frequencies
-- 
2.43.0


From 87b0c73b4f7098a445a5cba849922aaf10365428 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:13 +0000
Subject: [PATCH 176/225] fix: smoothing accepts window vectors of any length
 and leaves them unchanged

---
 dsptoolbox/helpers/smoothing.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/dsptoolbox/helpers/smoothing.py b/dsptoolbox/helpers/smoothing.py
index f53e162..6e07ef6 100644
--- a/dsptoolbox/helpers/smoothing.py
+++ b/dsptoolbox/helpers/smoothing.py
@@ -94,8 +94,9 @@ def _fractional_octave_smoothing(
         one_dim = True
         vector = vector[..., None]
 
-    # Normalize window
-    window /= window.sum()
+    # Normalize window (leaving a passed vector unchanged)
+    n_window = len(window)
+    window = window / np.sum(window)
 
     # Smoothe by convolving with window (output is centered)
     n_window_half = n_window // 2
-- 
2.43.0


From b9701422daa27a065dcce8138b3ed9c404108952 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:13 +0000
Subject: [PATCH 177/225] fix: time smoothing works on integer and single
 samples

---
 dsptoolbox/helpers/smoothing.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/dsptoolbox/helpers/smoothing.py b/dsptoolbox/helpers/smoothing.py
index 6e07ef6..576de02 100644
--- a/dsptoolbox/helpers/smoothing.py
+++ b/dsptoolbox/helpers/smoothing.py
@@ -202,6 +202,8 @@ def _time_smoothing(
     """
     onedim = x.ndim == 1
     x = np.atleast_2d(x)
+    if np.issubdtype(x.dtype, np.integer):
+        x = x.astype(np.float64)
     if x.shape[0] < x.shape[1]:
         reverse_axis = True
         x = x.T
@@ -229,7 +231,7 @@ def _time_smoothing(
         if reverse_axis:
             y = y.T
         if onedim:
-            return y.squeeze()
+            return y.flatten()
         return y
 
     assert descending_time_s >= 0.0, "Release time must at least 0"
@@ -258,5 +260,5 @@ def _time_smoothing(
     if reverse_axis:
         y = y.T
     if onedim:
-        return y.squeeze()
+        return y.flatten()
     return y
-- 
2.43.0


From 858bfe77cdd75a020461ef21ac6e395caa5ee172 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:13 +0000
Subject: [PATCH 178/225] fix: closest power of 2 for numbers below 1

---
 dsptoolbox/helpers/other.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dsptoolbox/helpers/other.py b/dsptoolbox/helpers/other.py
index 98ec551..c531c0e 100644
--- a/dsptoolbox/helpers/other.py
+++ b/dsptoolbox/helpers/other.py
@@ -119,7 +119,7 @@ def _get_next_power_2(number, mode: str = "closest") -> int:
 
     p = np.log2(number)
     if mode == "closest":
-        remainder = p - int(p)
+        remainder = p - np.floor(p)
         mode = "floor" if remainder < 0.5 else "ceil"
     if mode == "floor":
         p = np.floor(p).astype(int)
-- 
2.43.0


From 46f9d3c2b251520186812f713e3a0b1fa2b1a25c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:13 +0000
Subject: [PATCH 179/225] fix: frequency crossover for narrow regions

---
 dsptoolbox/tools.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/dsptoolbox/tools.py b/dsptoolbox/tools.py
index 597731a..3e7bd1b 100644
--- a/dsptoolbox/tools.py
+++ b/dsptoolbox/tools.py
@@ -156,15 +156,18 @@ def frequency_crossover(
         returns the same type.
 
     """
-    f = (
-        log_frequency_vector(crossover_region_hz, 250)
-        if logarithmic
-        else np.linspace(
+    # At least 250 points are used, also for narrow regions
+    if logarithmic:
+        n_octaves = np.log2(crossover_region_hz[1] / crossover_region_hz[0])
+        f = log_frequency_vector(
+            crossover_region_hz, int(np.ceil(250 / min(n_octaves, 1.0)))
+        )
+    else:
+        f = np.linspace(
             crossover_region_hz[0],
             crossover_region_hz[1],
-            int(crossover_region_hz[1] - crossover_region_hz[0]),
+            max(int(crossover_region_hz[1] - crossover_region_hz[0]), 250),
         )
-    )
     length = len(f)
     w = np.hanning(length * 2)[:length]
     i = interp1d(
-- 
2.43.0


From 9c3d082fc0ac28f5336804f2bc411cb0a91faf7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:13 +0000
Subject: [PATCH 180/225] fix: logarithmic mean of a single value

---
 dsptoolbox/tools.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dsptoolbox/tools.py b/dsptoolbox/tools.py
index 3e7bd1b..c7e8709 100644
--- a/dsptoolbox/tools.py
+++ b/dsptoolbox/tools.py
@@ -122,6 +122,8 @@ def log_mean(x: NDArray[np.float64], axis: int = 0):
     """
     # Linear and logarithmic frequency vector
     N = x.shape[axis]
+    if N == 1:
+        return np.mean(x, axis=axis)
     l1 = np.arange(N)
     k_log = (N) ** (l1 / (N - 1))
     # Interpolate to logarithmic scale
-- 
2.43.0


From eb7acce02d83d344af4ce43b211a463a4d1746ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:13 +0000
Subject: [PATCH 181/225] fix: interpolation of integer frequency responses

---
 dsptoolbox/helpers/spectrum_utilities.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dsptoolbox/helpers/spectrum_utilities.py b/dsptoolbox/helpers/spectrum_utilities.py
index bc5c94e..d212a39 100644
--- a/dsptoolbox/helpers/spectrum_utilities.py
+++ b/dsptoolbox/helpers/spectrum_utilities.py
@@ -416,6 +416,8 @@ def _interpolate_fr(
 
     fill_value = (0.0, 0.0)
     y = fr_interp.copy()
+    if np.issubdtype(y.dtype, np.integer):
+        y = y.astype(np.float64)
 
     # Conversion if necessary
     if mode is not None:
-- 
2.43.0


From dbdff98b81f5e7443b5b6a493b98a33995fb465c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:28 +0000
Subject: [PATCH 182/225] fix: play_and_record accepts durations in seconds
 that are not whole numbers

---
 dsptoolbox/audio_io/audio_io.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dsptoolbox/audio_io/audio_io.py b/dsptoolbox/audio_io/audio_io.py
index ef12038..d83321c 100644
--- a/dsptoolbox/audio_io/audio_io.py
+++ b/dsptoolbox/audio_io/audio_io.py
@@ -259,7 +259,7 @@ def play_and_record(
     #
     if duration_seconds is not None:
         assert duration_seconds > 0, "Duration must be positive"
-        duration_samples = duration_seconds * signal.sampling_rate_hz
+        duration_samples = int(duration_seconds * signal.sampling_rate_hz)
     else:
         duration_seconds = signal.time_data.shape[0] / signal.sampling_rate_hz
         duration_samples = signal.time_data.shape[0]
-- 
2.43.0


From a9dc9944c57130fcce6a7f6d815051ba390bb18a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:28 +0000
Subject: [PATCH 183/225] fix: channels of the played signal go to the output
 channels in the given order

---
 dsptoolbox/audio_io/audio_io.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dsptoolbox/audio_io/audio_io.py b/dsptoolbox/audio_io/audio_io.py
index d83321c..01f4fb2 100644
--- a/dsptoolbox/audio_io/audio_io.py
+++ b/dsptoolbox/audio_io/audio_io.py
@@ -246,7 +246,7 @@ def play_and_record(
         play_channels = [play_channels]
     if type(rec_channels) is int:
         rec_channels = [rec_channels]
-    play_channels = sorted(play_channels)
+    play_channels = list(play_channels)
     rec_channels = sorted(rec_channels)
     assert signal.number_of_channels == len(play_channels), (
         "The number of channels in signal does not match the number of "
@@ -378,7 +378,7 @@ def play(
         play_channels = list(range(1, signal.number_of_channels + 1))
     if type(play_channels) is int:
         play_channels = [play_channels]
-    play_channels = sorted(play_channels)
+    play_channels = list(play_channels)
     assert not any([r < 1 for r in play_channels]), "Play channel has to be 1 or more"
     if duration_seconds is not None:
         assert duration_seconds > 0, "Duration must be positive"
-- 
2.43.0


From 7b5afa7ee1cd9375c0052abce060281b21a42cde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:28 +0000
Subject: [PATCH 184/225] fix: CallbackStop stops the audio stream

---
 dsptoolbox/audio_io/audio_io.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dsptoolbox/audio_io/audio_io.py b/dsptoolbox/audio_io/audio_io.py
index 01f4fb2..9d3bc8e 100644
--- a/dsptoolbox/audio_io/audio_io.py
+++ b/dsptoolbox/audio_io/audio_io.py
@@ -414,7 +414,7 @@ def CallbackStop():
     streamings.
 
     """
-    sd.CallbackStop()
+    raise sd.CallbackStop()
 
 
 def sleep(seconds: float):
-- 
2.43.0


From 7e24acbdb93e2946ade48ebc6a54c89ed33759f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:15 +0000
Subject: [PATCH 185/225] fix: bytes with floating-point samples can be
 converted

---
 dsptoolbox/tools.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/dsptoolbox/tools.py b/dsptoolbox/tools.py
index c7e8709..e9fdf72 100644
--- a/dsptoolbox/tools.py
+++ b/dsptoolbox/tools.py
@@ -398,6 +398,8 @@ def convert_sample_representation(
     - `i` refers to signed integer and `u` means unsigned integer.
 
     """
+    input_format = input_format.lower()
+    output_format = output_format.lower()
     if input_format == output_format:
         raise AssertionError("No conversion is necessary")
 
@@ -413,8 +415,6 @@ def convert_sample_representation(
         "u24",
         "u32",
     ]
-    input_format.lower()
-    output_format = output_format.lower()
     assert (
         output_format in valid_formats and input_format in valid_formats
     ), f"Format {input_format} or {output_format} is not supported"
@@ -430,7 +430,9 @@ def convert_sample_representation(
                     f"""np.{"int" if signed_input else "uint"}{bits_input}"""
                 )
             else:
-                input_format_to_read = eval(f"np.{input_format}")
+                input_format_to_read = (
+                    np.float32 if input_format == "f32" else np.float64
+                )
             values = np.frombuffer(values, dtype=input_format_to_read)
 
     # ==== Input (convert always to double precision)
-- 
2.43.0


From bb9b4e21da38a6302c03b44e0f84e0b86a1ab933 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:15 +0000
Subject: [PATCH 186/225] fix: conversion of single-precision samples keeps the
 full scale of 32-bit integers

---
 dsptoolbox/tools.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dsptoolbox/tools.py b/dsptoolbox/tools.py
index e9fdf72..4e4143e 100644
--- a/dsptoolbox/tools.py
+++ b/dsptoolbox/tools.py
@@ -443,6 +443,8 @@ def convert_sample_representation(
         values = values.astype(np.float64) / max_value_input
         if not signed_input:
             values -= 1.0
+    else:
+        values = values.astype(np.float64)
     values = np.clip(values, -1.0, 1.0)
 
     # ==== Output (from double precision to desired format)
-- 
2.43.0


From ec272f11bfa79a8b0a0b64be1f2ecf3c3cea009f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:07 +0000
Subject: [PATCH 187/225] fix: lufs_integrated leaves the signal unchanged

---
 dsptoolbox/standard/gain_and_level.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/dsptoolbox/standard/gain_and_level.py b/dsptoolbox/standard/gain_and_level.py
index 7cc48f3..5b53f2e 100644
--- a/dsptoolbox/standard/gain_and_level.py
+++ b/dsptoolbox/standard/gain_and_level.py
@@ -264,10 +264,9 @@ def lufs_integrated(s: Signal) -> float:
     DIFF_GAMMA_R = 10
 
     # Filter handling amplitude
-    constrained = s.constrain_amplitude
+    s = s.copy()
     s.constrain_amplitude = False
     s_prefiltered = k_filter.filter_signal(s)
-    s.constrain_amplitude = constrained
 
     # Compute blocks
     z_ji = np.mean(
-- 
2.43.0


From 18e5e2470dcc78fa6c9b0f30e2156c149de5483d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:07 +0000
Subject: [PATCH 188/225] fix: signals do not share memory with the arrays
 passed to them

---
 dsptoolbox/classes/signal.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dsptoolbox/classes/signal.py b/dsptoolbox/classes/signal.py
index a20e16d..e2b1634 100644
--- a/dsptoolbox/classes/signal.py
+++ b/dsptoolbox/classes/signal.py
@@ -253,7 +253,7 @@ class Signal(MultichannelData):
 
         """
         # Shape of Time Data array
-        new_time_data = np.atleast_2d(new_time_data).squeeze()
+        new_time_data = np.atleast_2d(np.array(new_time_data)).squeeze()
         assert new_time_data.ndim <= 2, (
             f"{new_time_data.ndim} are "
             + "too many dimensions for time data. Dimensions should"
@@ -406,6 +406,7 @@ class Signal(MultichannelData):
             assert (
                 new_imag.shape == self.__time_data.shape
             ), "Shape of imaginary part time data does not match"
+            new_imag = new_imag.copy()
         self.__time_data_imaginary: NDArray[np.float64] | None = new_imag
 
     @property
-- 
2.43.0


From 16bfd0621b80521101d6a5235355e61231065ca9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:07 +0000
Subject: [PATCH 189/225] fix: impulse responses do not share memory with the
 window passed to them

---
 dsptoolbox/classes/impulse_response.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dsptoolbox/classes/impulse_response.py b/dsptoolbox/classes/impulse_response.py
index 15c98df..3c7b0ce 100644
--- a/dsptoolbox/classes/impulse_response.py
+++ b/dsptoolbox/classes/impulse_response.py
@@ -148,7 +148,7 @@ class ImpulseResponse(Signal):
         assert (
             window.shape == self.time_data.shape
         ), f"{window.shape} does not match shape {self.time_data.shape}"
-        self.window = window
+        self.window = window.copy()
         self._update_state()
         return self
 
-- 
2.43.0


From 012c2296c90fe9c8933926cde1669f0d891cecfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:07 +0000
Subject: [PATCH 190/225] fix: filters do not share memory with the
 coefficients passed to them

---
 dsptoolbox/classes/filter.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/dsptoolbox/classes/filter.py b/dsptoolbox/classes/filter.py
index fd25839..27bf9aa 100644
--- a/dsptoolbox/classes/filter.py
+++ b/dsptoolbox/classes/filter.py
@@ -560,7 +560,7 @@ class Filter:
         assert isinstance(sos, np.ndarray)
         assert sos.ndim == 2
         assert sos.shape[1] == 6
-        self.__sos = sos
+        self.__sos = sos.copy()
 
     @property
     def has_sos(self) -> bool:
@@ -615,7 +615,8 @@ class Filter:
             If new_zpk cannot be converted to a list.
 
         """
-        self.__zpk = list(new_zpk)
+        z, p, k = new_zpk
+        self.__zpk = [np.array(z), np.array(p), k]
 
     @property
     def order(self):
-- 
2.43.0


From df45a6d8d345978ed69f1e384d220175f9abe411 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:07 +0000
Subject: [PATCH 191/225] fix: QMF crossover does not share the prototype
 filter

---
 dsptoolbox/filterbanks/_filterbank.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dsptoolbox/filterbanks/_filterbank.py b/dsptoolbox/filterbanks/_filterbank.py
index 4d88cfc..e76e7c9 100644
--- a/dsptoolbox/filterbanks/_filterbank.py
+++ b/dsptoolbox/filterbanks/_filterbank.py
@@ -1166,7 +1166,7 @@ class QMFCrossover(BaseCrossover):
             )
             # Type of filter bank
             self.fir_filterbank = False
-        return [lowpass, highpass]
+        return [lowpass.copy(), highpass]
 
     def _get_synthesis_filters(self, lowpass: Filter):
         """Create and return synthesis filters based on a lowpass prototype.
@@ -1225,7 +1225,7 @@ class QMFCrossover(BaseCrossover):
                 sampling_rate_hz=lowpass.sampling_rate_hz,
             )
 
-        return [lowpass, hp_filter]
+        return [lowpass.copy(), hp_filter]
 
 
 def _crossover_downsample(
-- 
2.43.0


From 327f506805a72f6ad1243022ddde225ad4efdb65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:10 +0000
Subject: [PATCH 192/225] fix: group delay from the phase is also right for a
 frequency step of exactly 1 Hz

---
 dsptoolbox/standard/_standard_backend.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/dsptoolbox/standard/_standard_backend.py b/dsptoolbox/standard/_standard_backend.py
index ada5baf..b80956f 100644
--- a/dsptoolbox/standard/_standard_backend.py
+++ b/dsptoolbox/standard/_standard_backend.py
@@ -44,7 +44,7 @@ def _latency(
 
 
 def _group_delay_direct(
-    phase: NDArray[np.float64 | np.complex128], delta_f: float = 1
+    phase: NDArray[np.float64 | np.complex128], delta_f: float | None = None
 ) -> NDArray[np.float64]:
     """Computes group delay by differentiation of the unwrapped phase.
 
@@ -52,9 +52,9 @@ def _group_delay_direct(
     ----------
     phase : NDArray[np.float64]
         Complex spectrum or phase for the direct method
-    delta_f : float, optional
-        Frequency step for the phase. If it equals 1, group delay is computed
-        in samples and not in seconds. Default: 1.
+    delta_f : float, None, optional
+        Frequency step for the phase in Hz. If it is None, the derivative of the
+        phase per bin is returned. Default: None.
 
     Returns
     -------
@@ -65,7 +65,7 @@ def _group_delay_direct(
     """
     if np.iscomplexobj(phase):
         phase = np.angle(phase)
-    if delta_f != 1:
+    if delta_f is not None:
         gd = -np.gradient(np.unwrap(phase, axis=0), delta_f, axis=0) / np.pi / 2
     else:
         gd = -np.gradient(np.unwrap(phase, axis=0), axis=0)
-- 
2.43.0


From ee1fdb6e23516d188139ef3c3624c1b85a245a70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:35 +0000
Subject: [PATCH 193/225] fix: the magnitude of the state-variable filter can
 be plotted

---
 dsptoolbox/classes/sv_filter.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dsptoolbox/classes/sv_filter.py b/dsptoolbox/classes/sv_filter.py
index f53f042..ce71926 100644
--- a/dsptoolbox/classes/sv_filter.py
+++ b/dsptoolbox/classes/sv_filter.py
@@ -12,7 +12,7 @@ from .signal import Signal
 from .multibandsignal import MultiBandSignal
 from ..generators import dirac
 from .realtime_filter import RealtimeFilter
-from ..standard.enums import SpectrumMethod
+from ..standard.enums import SpectrumMethod, MagnitudeNormalization
 
 
 class StateVariableFilter(RealtimeFilter):
@@ -190,7 +190,7 @@ class StateVariableFilter(RealtimeFilter):
         d.spectrum_method = SpectrumMethod.FFT
         fig, ax = d.plot_magnitude(
             range_hz=range_hz,
-            normalize=None,
+            normalize=MagnitudeNormalization.NoNormalization,
             range_db=range_db,
             smoothing=0,
         )
-- 
2.43.0


From d51d1bd4d82f5a44482caedc406cab4344e31425 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:35 +0000
Subject: [PATCH 194/225] fix: plotted spectra are normalised with the first
 channel at 1 kHz when asked

---
 dsptoolbox/classes/spectrum.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dsptoolbox/classes/spectrum.py b/dsptoolbox/classes/spectrum.py
index d51c09e..5062e8d 100644
--- a/dsptoolbox/classes/spectrum.py
+++ b/dsptoolbox/classes/spectrum.py
@@ -940,7 +940,7 @@ class Spectrum(MultichannelData):
             case MagnitudeNormalization.OneKhzFirstChannel:
                 norm_value = self.get_interpolated_spectrum(
                     np.array([1000.0]), output_type=SpectrumType.Magnitude
-                )[0]
+                )[0, 0]
                 norm = np.ones(self.number_of_channels) * norm_value
             case MagnitudeNormalization.Max:
                 norm = (
-- 
2.43.0


From de91b6ae9d6e836ac023524ee34ea08a3de16ab2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:35 +0000
Subject: [PATCH 195/225] fix: axis label of spectra plotted without dB

---
 dsptoolbox/classes/spectrum.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dsptoolbox/classes/spectrum.py b/dsptoolbox/classes/spectrum.py
index 5062e8d..e1657a2 100644
--- a/dsptoolbox/classes/spectrum.py
+++ b/dsptoolbox/classes/spectrum.py
@@ -969,7 +969,7 @@ class Spectrum(MultichannelData):
             data,
             log_x=True,
             labels=[f"Channel {i}" for i in range(self.number_of_channels)],
-            ylabel="Magnitude / " + "dB" if in_db else "1",
+            ylabel="Magnitude / " + ("dB" if in_db else "1"),
         )
 
     def plot_coherence(self) -> tuple[Figure, list[Axes]]:
-- 
2.43.0


From c1fe4204f4ec33fd79bb4655093d3d5c5e8d3974 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:35 +0000
Subject: [PATCH 196/225] fix: subplots without labels of the x axis

---
 dsptoolbox/plots/plots.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dsptoolbox/plots/plots.py b/dsptoolbox/plots/plots.py
index 7207604..e96aec3 100644
--- a/dsptoolbox/plots/plots.py
+++ b/dsptoolbox/plots/plots.py
@@ -352,8 +352,8 @@ def general_subplots_line(
             ax[n].set_xlim(range_x)
         if range_y is not None:
             ax[n].set_ylim(range_y)
-    if type(xlabels) is str or len(xlabels) == 1:
-        ax[-1].set_xlabel(xlabels)
+    if xlabels is not None and (type(xlabels) is str or len(xlabels) == 1):
+        ax[-1].set_xlabel(xlabels if type(xlabels) is str else xlabels[0])
     fig.tight_layout()
     return fig, ax
 
-- 
2.43.0


From 84fd1355d384a425caf55228828631881a545a87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:35 +0000
Subject: [PATCH 197/225] fix: the cross-spectral matrix is plotted without
 phase when asked

---
 dsptoolbox/classes/plots.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dsptoolbox/classes/plots.py b/dsptoolbox/classes/plots.py
index bab4e72..c417922 100644
--- a/dsptoolbox/classes/plots.py
+++ b/dsptoolbox/classes/plots.py
@@ -59,7 +59,7 @@ def _csm_plot(f, csm, range_x=None, log=True, with_phase=True):
                 ax[c1, c2].set_xticks(ticks)
                 ax[c1, c2].get_xaxis().set_major_formatter(ScalarFormatter())
             ax[c1, c2].plot(f, to_db(csm[:, c1, c2], False))
-            if c1 != c2:
+            if c1 != c2 and with_phase:
                 axRight = ax[c1, c2].twinx()
                 axRight.plot(
                     f,
@@ -71,7 +71,7 @@ def _csm_plot(f, csm, range_x=None, log=True, with_phase=True):
                 axRight.grid(False)
             if c1 == ch - 1:
                 ax[c1, c2].set_xlabel("Hz")
-            if c2 == ch - 1:
+            if c2 == ch - 1 and c1 != c2 and with_phase:
                 axRight.set_ylabel("rad")
     fig.tight_layout()
     return fig, ax
-- 
2.43.0


From 0f9c523a27ee3d04d3fde6ec7ef9f9a14896084d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:35 +0000
Subject: [PATCH 198/225] fix: bands of crossovers with downsampling are
 plotted at their frequencies

---
 dsptoolbox/filterbanks/_filterbank.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dsptoolbox/filterbanks/_filterbank.py b/dsptoolbox/filterbanks/_filterbank.py
index e76e7c9..e5cf2be 100644
--- a/dsptoolbox/filterbanks/_filterbank.py
+++ b/dsptoolbox/filterbanks/_filterbank.py
@@ -1016,12 +1016,12 @@ class BaseCrossover(FilterBank):
         if mode == FilterBankMode.Parallel:
             bs = self.filter_signal(d, mode=mode, downsample=True)
             specs = []
-            f = bs.bands[0].get_spectrum()[0]
             for b in bs.bands:
                 b.spectrum_method = SpectrumMethod.FFT
+                f, sp_band = b.get_spectrum()
                 f, sp = _get_normalized_spectrum(
                     f=f,
-                    spectra=np.squeeze(b.get_spectrum()[1]),
+                    spectra=np.squeeze(sp_band),
                     is_amplitude_scaling=b.spectrum_scaling.is_amplitude_scaling(),
                     f_range_hz=range_hz,
                     normalize=MagnitudeNormalization.NoNormalization,
-- 
2.43.0


From 9395ef84e872162012c182cc3a0552dfb0c0717d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:35 +0000
Subject: [PATCH 199/225] fix: the sum of crossover bands is plotted at its
 frequencies

---
 dsptoolbox/filterbanks/_filterbank.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dsptoolbox/filterbanks/_filterbank.py b/dsptoolbox/filterbanks/_filterbank.py
index e5cf2be..75d4ee5 100644
--- a/dsptoolbox/filterbanks/_filterbank.py
+++ b/dsptoolbox/filterbanks/_filterbank.py
@@ -491,7 +491,7 @@ class LRFilterBank:
         summed = np.sum(np.array(summed).T, axis=1)
         sp_summed = np.fft.rfft(summed)
         f_s, sp_summed = _get_normalized_spectrum(
-            f,
+            np.fft.rfftfreq(len(summed), 1 / self.sampling_rate_hz),
             sp_summed,
             is_amplitude_scaling=True,
             f_range_hz=range_hz,
-- 
2.43.0


From 2d38b667de8945e18720bb96e63dc6ed86569a0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:35 +0000
Subject: [PATCH 200/225] fix: the waterfall plot regards the scaling of the
 spectrogram

---
 dsptoolbox/transforms/transforms.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dsptoolbox/transforms/transforms.py b/dsptoolbox/transforms/transforms.py
index 76d7523..80c8558 100644
--- a/dsptoolbox/transforms/transforms.py
+++ b/dsptoolbox/transforms/transforms.py
@@ -323,7 +323,7 @@ def plot_waterfall(
     t, f, stft = sig.get_spectrogram()
     stft = stft[..., 0]
 
-    amplitude_scaling = sig.spectrum_scaling.is_amplitude_scaling()
+    amplitude_scaling = sig._spectrogram_parameters["scaling"].is_amplitude_scaling()
     fig, ax = plt.subplots(figsize=(10, 8), subplot_kw=dict(projection="3d"))
     tt, ff = np.meshgrid(t, f)
     ax.plot_surface(
-- 
2.43.0


From 1c368a701be54ca7cbc4d8417f13ce1ef3c48793 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:36 +0000
Subject: [PATCH 201/225] fix: gain at 1 kHz when this is the last frequency

---
 dsptoolbox/helpers/spectrum_utilities.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dsptoolbox/helpers/spectrum_utilities.py b/dsptoolbox/helpers/spectrum_utilities.py
index d212a39..f4e2a44 100644
--- a/dsptoolbox/helpers/spectrum_utilities.py
+++ b/dsptoolbox/helpers/spectrum_utilities.py
@@ -50,7 +50,7 @@ def _get_exact_gain_1khz(f: NDArray[np.float64], sp_db: NDArray[np.float64]) ->
     )
     # Get nearest value just before
     ind = find_nearest_points_index_in_vector(1e3, f).squeeze()
-    if f[ind] > 1e3:
+    if f[ind] >= 1e3:
         ind -= 1
     return (sp_db[ind + 1] - sp_db[ind]) / (f[ind + 1] - f[ind]) * (
         1e3 - f[ind]
-- 
2.43.0


From a583940bb274b04755787eb1f5be3dac97a6af94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:36 +0000
Subject: [PATCH 202/225] fix: magnitude plots with zero-phase filtering show
 the whole response

---
 dsptoolbox/classes/filter.py     | 14 +++++++++++++-
 dsptoolbox/classes/filterbank.py |  1 +
 2 files changed, 14 insertions(+), 1 deletion(-)

diff --git a/dsptoolbox/classes/filter.py b/dsptoolbox/classes/filter.py
index 27bf9aa..fae1675 100644
--- a/dsptoolbox/classes/filter.py
+++ b/dsptoolbox/classes/filter.py
@@ -1024,7 +1024,19 @@ class Filter:
                 + f"""filter order {self.order}. Length will be """
                 + "automatically extended."
             )
-        ir = self.get_ir(length_samples=length_samples, zero_phase=zero_phase)
+        if zero_phase:
+            # Impulse in the middle, since the response is symmetric around it
+            ir = self.filter_signal(
+                ImpulseResponse(
+                    None,
+                    _impulse(length_samples, length_samples // 2),
+                    self.sampling_rate_hz,
+                    constrain_amplitude=False,
+                ),
+                zero_phase=True,
+            )
+        else:
+            ir = self.get_ir(length_samples=length_samples)
         fig, ax = ir.plot_magnitude(range_hz, normalize, show_info_box=False)
         if show_info_box:
             txt = self.metadata_str
diff --git a/dsptoolbox/classes/filterbank.py b/dsptoolbox/classes/filterbank.py
index ea6b63c..4918923 100644
--- a/dsptoolbox/classes/filterbank.py
+++ b/dsptoolbox/classes/filterbank.py
@@ -712,6 +712,7 @@ class FilterBank:
         d = dirac(
             length_samples=length_samples,
             number_of_channels=1,
+            delay_samples=length_samples // 2 if zero_phase else 0,
             sampling_rate_hz=self.sampling_rate_hz,
         )
 
-- 
2.43.0


From 93ae26fc5b77c454e10180f23f8781e0386bac07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:31 +0000
Subject: [PATCH 203/225] fix: plots of the whole cross-spectral matrix include
 the last frequency

---
 dsptoolbox/classes/plots.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dsptoolbox/classes/plots.py b/dsptoolbox/classes/plots.py
index c417922..ca1c7c4 100644
--- a/dsptoolbox/classes/plots.py
+++ b/dsptoolbox/classes/plots.py
@@ -40,7 +40,7 @@ def _csm_plot(f, csm, range_x=None, log=True, with_phase=True):
     if range_x is not None:
         id0, id1 = find_nearest_points_index_in_vector(range_x, f)
     else:
-        id0, id1 = 0, -1
+        id0, id1 = 0, len(f)
     f = f[id0:id1]
     csm = csm[id0:id1]
     fig, ax = plt.subplots(
-- 
2.43.0


From 273b212eaa7136775eb7f63c09f6df05c1fd45b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:31 +0000
Subject: [PATCH 204/225] fix: plotted spectra are normalised with the average
 energy per frequency

---
 dsptoolbox/classes/spectrum.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dsptoolbox/classes/spectrum.py b/dsptoolbox/classes/spectrum.py
index e1657a2..2bd25f9 100644
--- a/dsptoolbox/classes/spectrum.py
+++ b/dsptoolbox/classes/spectrum.py
@@ -955,9 +955,9 @@ class Spectrum(MultichannelData):
                     else np.max(self.spectral_data[:, 0], axis=0, keepdims=True)
                 )
             case MagnitudeNormalization.Energy:
-                norm = (self.get_energy() / self.number_frequency_bins) ** 0.5
+                norm = np.mean(np.abs(self.spectral_data) ** 2.0, axis=0) ** 0.5
             case MagnitudeNormalization.EnergyFirstChannel:
-                norm = (self.get_energy()[0] / self.number_frequency_bins) ** 0.5
+                norm = np.mean(np.abs(self.spectral_data[:, 0]) ** 2.0) ** 0.5
             case MagnitudeNormalization.NoNormalization:
                 norm = np.ones(self.number_of_channels)
 
-- 
2.43.0


From 4499dc35d583677f0907bd387417c2d76290b7cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:03 +0000
Subject: [PATCH 205/225] fix: sub-sample latencies at the first and last
 sample of an impulse response

---
 dsptoolbox/helpers/latency.py | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/dsptoolbox/helpers/latency.py b/dsptoolbox/helpers/latency.py
index a1c5fd4..801e5af 100644
--- a/dsptoolbox/helpers/latency.py
+++ b/dsptoolbox/helpers/latency.py
@@ -45,10 +45,14 @@ def _get_fractional_impulse_peak_index(
 
     for ch in range(n_channels):
         # ===== Ensure that delay_samples is before the peak in each channel
-        selection = h[delay_samples[ch] : delay_samples[ch] + 2, ch]
+        # (the hilbert transform is circular)
+        selection = h.take([delay_samples[ch], delay_samples[ch] + 1], 0, mode="wrap")[
+            :, ch
+        ]
         move_back_one_sample = selection[0] * selection[1] > 0
         delay_samples[ch] -= int(move_back_one_sample)
-        if h[delay_samples[ch], ch] * h[delay_samples[ch] + 1, ch] > 0:
+        selection = h.take(delay_samples[ch] + x, 0, mode="wrap")[:, ch]
+        if selection[polynomial_points - 1] * selection[polynomial_points] > 0:
             latency_samples[ch] = delay_samples[ch] + int(move_back_one_sample)
             warn(
                 f"Fractional latency detection failed for channel {ch}. "
@@ -61,14 +65,7 @@ def _get_fractional_impulse_peak_index(
         # Fit polynomial
         pol = np.polyfit(
             x,
-            h[
-                delay_samples[ch]
-                - polynomial_points
-                + 1 : delay_samples[ch]
-                + polynomial_points
-                + 1,
-                ch,
-            ],
+            selection,
             deg=2 * polynomial_points - 1,
         )
 
-- 
2.43.0


From e3653de1659c47455fbd71207b4ab0cefe46c93b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:13 +0000
Subject: [PATCH 206/225] fix: documented default values match the real ones

---
 dsptoolbox/effects/effects.py               | 7 ++++---
 dsptoolbox/filterbanks/filterbanks.py       | 2 +-
 dsptoolbox/room_acoustics/room_acoustics.py | 4 ++--
 3 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/dsptoolbox/effects/effects.py b/dsptoolbox/effects/effects.py
index 5aea009..dc1624d 100644
--- a/dsptoolbox/effects/effects.py
+++ b/dsptoolbox/effects/effects.py
@@ -273,7 +273,7 @@ class SpectralSubtractor(AudioEffect):
             This factor is used to average the noise spectrum in order to
             reduce distortions at the expense of responsiveness. It should
             be between 0 and 1. The lower this value, the faster the algorithm
-            responds to changes in the noise. Default: 0.5.
+            responds to changes in the noise. Default: 0.9.
         subtraction_factor : float, optional
             The subtraction factor defines how strongly noise is subtracted
             from the signal. It can take values larger than one leading to
@@ -286,7 +286,7 @@ class SpectralSubtractor(AudioEffect):
             also possible. Default: 2.
         ad_attack_time_ms : float, optional
             Attack time in ms for the activity detector (static mode).
-            Default: 0.9.
+            Default: 0.5.
         ad_release_time_ms : float, optional
             Release time for the activity detector (static mode).
             Default: 30.
@@ -1391,7 +1391,8 @@ class DigitalDelay(AudioEffect):
         feedback : float, optional
             This controls the amount of repetitions to be generated.
             The bigger the feedback, the more extreme the effect. It is
-            constrained to the range [0, 1[. Default: 0.1.
+            constrained to the range [0, 1[. Pass `None` to keep the current
+            value. Default: `None`.
 
         """
         self.__set_parameters(delay_time_ms, feedback)
diff --git a/dsptoolbox/filterbanks/filterbanks.py b/dsptoolbox/filterbanks/filterbanks.py
index 321ae7c..5e255b8 100644
--- a/dsptoolbox/filterbanks/filterbanks.py
+++ b/dsptoolbox/filterbanks/filterbanks.py
@@ -357,7 +357,7 @@ def fractional_octave_bands(
     octave_fraction : int, optional
         Octave fraction to use. Default: 1.
     filter_order : int, optional
-        Filter order to be used. Less than 4 is not recommended. Default: 4.
+        Filter order to be used. Less than 4 is not recommended. Default: 6.
     sampling_rate_hz : int
         Sampling rate in Hz.
 
diff --git a/dsptoolbox/room_acoustics/room_acoustics.py b/dsptoolbox/room_acoustics/room_acoustics.py
index 3ee73d4..bc64ac1 100644
--- a/dsptoolbox/room_acoustics/room_acoustics.py
+++ b/dsptoolbox/room_acoustics/room_acoustics.py
@@ -329,10 +329,10 @@ def generate_synthetic_rir(
         Total length of the output RIR in seconds. Default: 0.5.
     add_noise_reverberant_tail : bool, optional
         When `True`, decaying noise is added to the IR in order to model
-        the late reflections of the room. Default: `True`.
+        the late reflections of the room. Default: `False`.
     apply_bandpass : bool, optional
         When `True`, a bandpass filter is applied to signal in order to obtain
-        a realistic audio representation of the RIR. Default: `True`.
+        a realistic audio representation of the RIR. Default: `False`.
     use_detailed_absorption : bool, optional
         When `True`, The detailed absorption data of the room is used to
         generate the impulse response. This allows a more realistic RIR but at
-- 
2.43.0


From a5575fc3096fd47aa1ebfbcd6792d330acc84328 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:55 +0000
Subject: [PATCH 207/225] fix: playback and recording durations lose no sample
 to binary rounding

---
 dsptoolbox/audio_io/audio_io.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/dsptoolbox/audio_io/audio_io.py b/dsptoolbox/audio_io/audio_io.py
index 9d3bc8e..ff6954c 100644
--- a/dsptoolbox/audio_io/audio_io.py
+++ b/dsptoolbox/audio_io/audio_io.py
@@ -259,7 +259,7 @@ def play_and_record(
     #
     if duration_seconds is not None:
         assert duration_seconds > 0, "Duration must be positive"
-        duration_samples = int(duration_seconds * signal.sampling_rate_hz)
+        duration_samples = int(duration_seconds * signal.sampling_rate_hz + 0.5)
     else:
         duration_seconds = signal.time_data.shape[0] / signal.sampling_rate_hz
         duration_samples = signal.time_data.shape[0]
@@ -332,7 +332,7 @@ def record(
 
     print(f"\nRecording started ({duration_seconds:.1f} s)...")
     rec_time_data = sd.rec(
-        frames=int(duration_seconds * sampling_rate_hz),
+        frames=int(duration_seconds * sampling_rate_hz + 0.5),
         samplerate=sampling_rate_hz,
         mapping=rec_channels,
         blocking=True,
@@ -382,7 +382,7 @@ def play(
     assert not any([r < 1 for r in play_channels]), "Play channel has to be 1 or more"
     if duration_seconds is not None:
         assert duration_seconds > 0, "Duration must be positive"
-        duration_samples = int(duration_seconds * signal.sampling_rate_hz)
+        duration_samples = int(duration_seconds * signal.sampling_rate_hz + 0.5)
     else:
         duration_seconds = signal.time_data.shape[0] / signal.sampling_rate_hz
         duration_samples = signal.time_data.shape[0]
-- 
2.43.0


From c5798d67152104d39a571b536a20b40463a7f8bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:55 +0000
Subject: [PATCH 208/225] fix: synthetic room impulse responses have the
 requested length

---
 dsptoolbox/room_acoustics/room_acoustics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dsptoolbox/room_acoustics/room_acoustics.py b/dsptoolbox/room_acoustics/room_acoustics.py
index bc64ac1..bb29cb3 100644
--- a/dsptoolbox/room_acoustics/room_acoustics.py
+++ b/dsptoolbox/room_acoustics/room_acoustics.py
@@ -374,7 +374,7 @@ def generate_synthetic_rir(
         receiver_position
     ), "Receiver is not located inside the room"
 
-    total_length_samples = int(total_length_seconds * sampling_rate_hz)
+    total_length_samples = int(total_length_seconds * sampling_rate_hz + 0.5)
 
     if not use_detailed_absorption:
         # ====== Frequency independent
-- 
2.43.0


From d6029c6884f4d988b951575690389024753b826f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:59 +0000
Subject: [PATCH 209/225] fix: sample times of room-acoustic descriptors are
 not stretched

---
 dsptoolbox/room_acoustics/_room_acoustics.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/dsptoolbox/room_acoustics/_room_acoustics.py b/dsptoolbox/room_acoustics/_room_acoustics.py
index 819aa2a..29034db 100644
--- a/dsptoolbox/room_acoustics/_room_acoustics.py
+++ b/dsptoolbox/room_acoustics/_room_acoustics.py
@@ -58,7 +58,7 @@ def _reverb(
 
     """
     edc = _compute_energy_decay_curve(h, automatic_trimming, fs_hz, ir_start)
-    time_vector = np.linspace(0, len(edc) / fs_hz, len(edc))
+    time_vector = np.arange(len(edc)) / fs_hz
 
     # Reverb
     if mode == ReverbTime.Adaptive:
@@ -1000,7 +1000,7 @@ def _ts_from_rir(td: NDArray[np.float64], fs: int, automatic_trimming: bool) ->
 
     td = td[:stop] ** 2
 
-    time_vec = np.linspace(0, len(td) / fs, len(td))
+    time_vec = np.arange(len(td)) / fs
     return np.sum(td * time_vec) / np.sum(td)
 
 
@@ -1203,7 +1203,7 @@ def _compute_energy_decay_curve(
         max_index
         + np.where(max(dynamic_range_db, 0.0) + np.min(decay_db) >= decay_db)[0][0]
     )
-    time_vector = np.linspace(0, len(signal_power) / fs_hz, len(signal_power))
+    time_vector = np.arange(len(signal_power)) / fs_hz
     p = np.polyfit(time_vector[start_index_int:], signal_db[start_index_int:], 1)
     avoid_corrections = p[0] >= 0.0  # Check if slope makes sense
 
-- 
2.43.0


From d8e573a475a5f743bdf4261ce609b6b810d16131 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:15 +0000
Subject: [PATCH 210/225] fix: short impulse responses of banks with
 second-order sections are extended

---
 dsptoolbox/classes/filter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dsptoolbox/classes/filter.py b/dsptoolbox/classes/filter.py
index fae1675..d7e43b9 100644
--- a/dsptoolbox/classes/filter.py
+++ b/dsptoolbox/classes/filter.py
@@ -634,7 +634,7 @@ class Filter:
             n_first_order_sos = np.sum(
                 (self.sos[:, 2] == 0.0) & (self.sos[:, 5] == 0.0)
             )
-            return self.sos.shape[0] * 2 - n_first_order_sos
+            return int(self.sos.shape[0] * 2 - n_first_order_sos)
         if hasattr(self, "ba"):
             return max(len(self.ba[0]), len(self.ba[1])) - 1
         raise ValueError("No order found")
-- 
2.43.0


From 039d29bfaa743450ccf7b979e8bdfcf669f4a67f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:06 +0000
Subject: [PATCH 211/225] fix: time windows are plotted at the level of
 calibrated impulse responses

---
 dsptoolbox/classes/impulse_response.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dsptoolbox/classes/impulse_response.py b/dsptoolbox/classes/impulse_response.py
index 3c7b0ce..7f8d1da 100644
--- a/dsptoolbox/classes/impulse_response.py
+++ b/dsptoolbox/classes/impulse_response.py
@@ -217,6 +217,8 @@ class ImpulseResponse(Signal):
         fig, ax = super().plot_spl(normalize_at_peak, dynamic_range_db, window_length_s)
 
         peak_values = to_db(np.max(np.abs(self.time_data), axis=0), True)
+        if self.calibrated_signal:
+            peak_values = peak_values - 20 * np.log10(2e-5)
 
         max_values = (
             peak_values + 1  # Add 1 dB for better plotting
-- 
2.43.0


From dae64c514885ad86ee578a5315ea8068a3481b4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:02 +0000
Subject: [PATCH 212/225] fix: trailing zeros of denominator coefficients do
 not count for the order

---
 dsptoolbox/classes/filter.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/dsptoolbox/classes/filter.py b/dsptoolbox/classes/filter.py
index d7e43b9..91534fe 100644
--- a/dsptoolbox/classes/filter.py
+++ b/dsptoolbox/classes/filter.py
@@ -524,9 +524,7 @@ class Filter:
         if len(a) == 1:
             b /= a[0]
             a = a / a[0]
-            self.__ba = [b, a]
-        else:
-            self.__ba = ba
+        self.__ba = [b, a]
 
     @property
     def sos(self) -> NDArray[np.float64 | np.complex128]:
-- 
2.43.0


From e40e306d9b8bcb1caeeeeae432d5d219c82a558a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:49 +0000
Subject: [PATCH 213/225] fix: filtering with resampling keeps the imaginary
 part of signals and filters

---
 dsptoolbox/classes/filter.py         |  5 +++--
 dsptoolbox/classes/filter_helpers.py | 15 +++++++++++----
 dsptoolbox/helpers/polyphase.py      |  4 ++--
 3 files changed, 16 insertions(+), 8 deletions(-)

diff --git a/dsptoolbox/classes/filter.py b/dsptoolbox/classes/filter.py
index 91534fe..f35df81 100644
--- a/dsptoolbox/classes/filter.py
+++ b/dsptoolbox/classes/filter.py
@@ -31,6 +31,7 @@ from ..helpers.other import (
     find_nearest_points_index_in_vector,
 )
 from ..helpers.gain_and_level import to_db
+from ..standard._standard_backend import _get_full_time_data
 from ..standard.enums import (
     FilterCoefficientsType,
     BiquadEqType,
@@ -791,7 +792,7 @@ class Filter:
                 signal.sampling_rate_hz == self.sampling_rate_hz
             ), "Sampling rates do not match"
             new_time_data = _filter_and_downsample(
-                time_data=signal.time_data,
+                time_data=_get_full_time_data(signal),
                 down_factor=fraction[1],
                 ba_coefficients=ba,
                 polyphase=polyphase,
@@ -802,7 +803,7 @@ class Filter:
                 + """sampling rate of the filter should match the output's"""
             )
             new_time_data = _filter_and_upsample(
-                time_data=signal.time_data,
+                time_data=_get_full_time_data(signal),
                 up_factor=fraction[0],
                 ba_coefficients=ba,
                 polyphase=polyphase,
diff --git a/dsptoolbox/classes/filter_helpers.py b/dsptoolbox/classes/filter_helpers.py
index 44352c2..04d7ef9 100644
--- a/dsptoolbox/classes/filter_helpers.py
+++ b/dsptoolbox/classes/filter_helpers.py
@@ -548,12 +548,15 @@ def _filter_and_downsample(
         b = np.pad(b, ((down_factor - 1 - half_length) % down_factor, 0))
         b = np.pad(b, (0, -len(b) % down_factor))
         b_poly, _ = _polyphase_decomposition(b, down_factor, flip=True)
-        new_time_data = np.zeros((poly.shape[0] + b_poly.shape[0] - 1, poly.shape[2]))
+        output_dtype = np.result_type(time_data, b)
+        new_time_data = np.zeros(
+            (poly.shape[0] + b_poly.shape[0] - 1, poly.shape[2]), dtype=output_dtype
+        )
         # Accumulator for each channel – it would be better to find a way
         # to do it without loops, but using scipy.signal.convolve since it
         # is advantageous compared to numpy.convolve
         for ch in range(poly.shape[2]):
-            temp = np.zeros(new_time_data.shape[0])
+            temp = np.zeros(new_time_data.shape[0], dtype=output_dtype)
             for n in range(poly.shape[1]):
                 temp += sig.oaconvolve(
                     poly[:, n, ch], b_poly[:, n, 0], mode="full", axes=0
@@ -622,7 +625,8 @@ def _filter_and_upsample(
             (
                 (time_data.shape[0] + b_poly.shape[0] - 1) * up_factor,
                 time_data.shape[1],
-            )
+            ),
+            dtype=np.result_type(time_data, b),
         )
 
         # Interpolate per channel and per polyphase component – should be
@@ -640,7 +644,10 @@ def _filter_and_upsample(
             half_length + padding : len(new_time_data) - half_length + padding, :
         ]
     else:
-        new_time_data = np.zeros((time_data.shape[0] * up_factor, time_data.shape[1]))
+        new_time_data = np.zeros(
+            (time_data.shape[0] * up_factor, time_data.shape[1]),
+            dtype=time_data.dtype,
+        )
         new_time_data[::up_factor] = time_data * up_factor
         new_time_data = sig.lfilter(
             ba_coefficients[0], ba_coefficients[1], x=new_time_data, axis=0
diff --git a/dsptoolbox/helpers/polyphase.py b/dsptoolbox/helpers/polyphase.py
index 0a0bf10..aea679f 100644
--- a/dsptoolbox/helpers/polyphase.py
+++ b/dsptoolbox/helpers/polyphase.py
@@ -48,7 +48,7 @@ def _polyphase_decomposition(
     if remainder != 0:
         in_sig = _pad_trim(in_sig, in_sig.shape[0] + padding, axis=0, in_the_end=False)
     # Here (time samples, polyphase, channels)
-    poly = np.zeros((in_sig.shape[0] // n, n, in_sig.shape[1]))
+    poly = np.zeros((in_sig.shape[0] // n, n, in_sig.shape[1]), dtype=in_sig.dtype)
     for ind in range(n):
         poly[:, ind, :] = in_sig[ind::n, :]
     if flip:
@@ -84,7 +84,7 @@ def _polyphase_reconstruction(
         + "components, channels)"
     )
     n = poly.shape[1]
-    in_sig = np.zeros((poly.shape[0] * n, poly.shape[2]))
+    in_sig = np.zeros((poly.shape[0] * n, poly.shape[2]), dtype=poly.dtype)
     for ind in range(n):
         in_sig[ind::n, :] = poly[:, ind, :]
     return in_sig
-- 
2.43.0


From c2283f0caf3ada66d70a32b05876c8b395443f3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:31 +0000
Subject: [PATCH 214/225] fix: normalizing keeps the imaginary part of signals

---
 dsptoolbox/helpers/gain_and_level.py  | 8 ++++----
 dsptoolbox/standard/gain_and_level.py | 4 +++-
 2 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/dsptoolbox/helpers/gain_and_level.py b/dsptoolbox/helpers/gain_and_level.py
index affa5be..3e5b4ce 100644
--- a/dsptoolbox/helpers/gain_and_level.py
+++ b/dsptoolbox/helpers/gain_and_level.py
@@ -56,9 +56,9 @@ def _normalize(
 
     Parameters
     ----------
-    s: NDArray[np.float64]
+    s: NDArray[np.float64 | np.complex128]
         Signal to normalize. It can be 1 or 2D. Time samples are assumed to
-        be in the outer axis.
+        be in the outer axis. The level is that of the real part.
     dbfs: float
         dbfs value to normalize to.
     peak_normalization: Bool
@@ -76,9 +76,9 @@ def _normalize(
 
     factor = from_db(dbfs, True)
     if peak_normalization:
-        level = np.max(np.abs(s), axis=0 if per_channel else None)
+        level = np.max(np.abs(s.real), axis=0 if per_channel else None)
     else:
-        level = _rms(s if per_channel else s.flatten())
+        level = _rms(s.real if per_channel else s.real.flatten())
     s_norm = s * (factor / np.where(level == 0.0, 1.0, level))  # Silence stays silent
 
     return s_norm[..., 0] if onedim else s_norm
diff --git a/dsptoolbox/standard/gain_and_level.py b/dsptoolbox/standard/gain_and_level.py
index 5b53f2e..aca8ae3 100644
--- a/dsptoolbox/standard/gain_and_level.py
+++ b/dsptoolbox/standard/gain_and_level.py
@@ -46,7 +46,9 @@ def normalize(
     """
     if isinstance(sig, Signal):
         return sig.copy_with_new_time_data(
-            _normalize(sig.time_data, norm_dbfs, peak_normalization, each_channel)
+            _normalize(
+                _get_full_time_data(sig), norm_dbfs, peak_normalization, each_channel
+            )
         )
     elif isinstance(sig, MultiBandSignal):
         new_sig = sig.copy()
-- 
2.43.0


From 49d561a82ecfb6dfad594321e6eff7c9dbae82e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:31 +0000
Subject: [PATCH 215/225] fix: spectral differences limit the dynamic range by
 the magnitude and are complex only on request

---
 dsptoolbox/standard/other.py | 27 +++++++++++++++------------
 1 file changed, 15 insertions(+), 12 deletions(-)

diff --git a/dsptoolbox/standard/other.py b/dsptoolbox/standard/other.py
index 80c7c01..ca2b883 100644
--- a/dsptoolbox/standard/other.py
+++ b/dsptoolbox/standard/other.py
@@ -445,19 +445,18 @@ def spectral_difference(
         input_1.number_of_channels == input_2.number_of_channels
     ), "Number of channels does not match"
 
-    if isinstance(input_1, Signal):
-        inp1 = Spectrum.from_signal(input_1, complex)
-    else:
+    def get_input_spectrum(inp):
+        if isinstance(inp, Signal):
+            return Spectrum.from_signal(inp, complex)
+        spectrum = inp.copy()
         if complex:
-            assert not input_1.is_magnitude, "Input data should be complex"
-        inp1 = input_1.copy()
+            assert not spectrum.is_magnitude, "Input data should be complex"
+        else:
+            spectrum.spectral_data = np.abs(spectrum.spectral_data)
+        return spectrum
 
-    if isinstance(input_2, Signal):
-        inp2 = Spectrum.from_signal(input_2, complex)
-    else:
-        if complex:
-            assert not input_2.is_magnitude, "Input data should be complex"
-        inp2 = input_2.copy()
+    inp1 = get_input_spectrum(input_1)
+    inp2 = get_input_spectrum(input_2)
 
     if energy_normalization:
         inp1.spectral_data /= inp1.get_energy() ** 0.5
@@ -477,7 +476,11 @@ def spectral_difference(
 
     if dynamic_range_db is not None:
         dynamic_range_factor = from_db(-abs(dynamic_range_db), True)
-        mag2 = np.clip(mag2, np.max(mag2, axis=0) * dynamic_range_factor, None)
+        magnitude = np.abs(mag2)
+        magnitude = np.clip(
+            magnitude, np.max(magnitude, axis=0) * dynamic_range_factor, None
+        )
+        mag2 = magnitude * np.exp(1j * np.angle(mag2)) if complex else magnitude
 
     inp1.spectral_data /= mag2
     return inp1
-- 
2.43.0


From 64398603ba48b98b079dbf3d2bc41eda4da71f74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:02 +0000
Subject: [PATCH 216/225] fix: the mode indicator function of several responses
 is a power as that of a single one

---
 dsptoolbox/room_acoustics/_room_acoustics.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dsptoolbox/room_acoustics/_room_acoustics.py b/dsptoolbox/room_acoustics/_room_acoustics.py
index 29034db..32cdbaf 100644
--- a/dsptoolbox/room_acoustics/_room_acoustics.py
+++ b/dsptoolbox/room_acoustics/_room_acoustics.py
@@ -151,9 +151,9 @@ def _complex_mode_identification(
     for ind in range(cmif.shape[0]):
         s = np.linalg.svd(H[:, :, ind], compute_uv=False, hermitian=False)
         if maximum_singular_value:
-            cmif[ind] = s.max()
+            cmif[ind] = s.max() ** 2
         else:
-            cmif[ind] = s[0]
+            cmif[ind] = s[0] ** 2
     return cmif
 
 
-- 
2.43.0


From 62120a31b0e65009baafc85ae16abdeb0ff16dbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:12 +0000
Subject: [PATCH 217/225] fix: impulse responses without any noise after their
 end can be trimmed

---
 dsptoolbox/transfer_functions/_transfer_functions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dsptoolbox/transfer_functions/_transfer_functions.py b/dsptoolbox/transfer_functions/_transfer_functions.py
index b778ff7..ab971be 100644
--- a/dsptoolbox/transfer_functions/_transfer_functions.py
+++ b/dsptoolbox/transfer_functions/_transfer_functions.py
@@ -368,7 +368,7 @@ def _trim_ir(
         end_point = int(np.mean(np.hstack([np.ones(5) * len(envelope), end])))
 
     stop = end_point + start_index + impulse_index
-    if safety_distance_to_noise_floor_db != 0.0:
+    if safety_distance_to_noise_floor_db != 0.0 and stop < len(time_data):
         end_point = __find_index_above_noise_floor(
             envelope[:end_point],
             float(to_db(np.var(time_data[stop:]), False)),
-- 
2.43.0


From 7933bb8bc0f165d845841db3b5cc5ed6a20b9c90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:45:33 +0000
Subject: [PATCH 218/225] fix: warped filters whose denominator is a single
 coefficient have no feedback

---
 dsptoolbox/classes/warped_filters.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dsptoolbox/classes/warped_filters.py b/dsptoolbox/classes/warped_filters.py
index 1d1675b..adfcce0 100644
--- a/dsptoolbox/classes/warped_filters.py
+++ b/dsptoolbox/classes/warped_filters.py
@@ -181,6 +181,9 @@ class WarpedIIR(WarpedFIR):
         assert b.ndim == 1, "Coefficients can only have a single dimension"
         assert a.ndim == 1, "Coefficients can only have a single dimension"
 
+        # The feedback path needs at least one delayed coefficient
+        a = np.pad(a, (0, max(2 - len(a), 0)))
+
         self.N = max(len(a), len(b))
         self.order = self.N - 1
 
-- 
2.43.0


From a93fcd06d9fac45c11e5fd5053c0f5ed6b89ecba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:13:36 +0000
Subject: [PATCH 219/225] fix: smoothing of plotted magnitudes does not depend
 on the shown range

---
 dsptoolbox/helpers/spectrum_utilities.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/dsptoolbox/helpers/spectrum_utilities.py b/dsptoolbox/helpers/spectrum_utilities.py
index f4e2a44..d82636a 100644
--- a/dsptoolbox/helpers/spectrum_utilities.py
+++ b/dsptoolbox/helpers/spectrum_utilities.py
@@ -148,10 +148,9 @@ def _get_normalized_spectrum(
         id1 = 0
         id2 = len(f)
 
-    spectra = spectra[id1:id2]
     mag_spectra = np.abs(spectra)
-    f = f[id1:id2]
 
+    # Smooth before selecting the range: it takes the first bin as 0 Hz
     if smoothing != 0:
         mag_spectra = (
             _fractional_octave_smoothing(mag_spectra, None, smoothing)
@@ -162,6 +161,9 @@ def _get_normalized_spectrum(
             )
         )
 
+    mag_spectra = mag_spectra[id1:id2]
+    f = f[id1:id2]
+
     mag_spectra_db = to_db(mag_spectra / scale_factor, is_amplitude_scaling, 500)
 
     match normalize:
@@ -215,6 +217,7 @@ def _get_normalized_spectrum(
                     np.unwrap(phase_spectra, axis=0), None, smoothing
                 )
             )
+        phase_spectra = phase_spectra[id1:id2]
 
     if one_dimensional:
         mag_spectra_db = np.squeeze(mag_spectra_db)
-- 
2.43.0


From fcd1a698bb0efc72a7fbd318935257b4ff3a8623 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:27:01 +0000
Subject: [PATCH 220/225] fix: impulse responses of designed FIR filters keep
 their gain

---
 .../classes/group_delay_designer_phase_linearizer.py       | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/dsptoolbox/classes/group_delay_designer_phase_linearizer.py b/dsptoolbox/classes/group_delay_designer_phase_linearizer.py
index 6cd7e99..47aecc6 100644
--- a/dsptoolbox/classes/group_delay_designer_phase_linearizer.py
+++ b/dsptoolbox/classes/group_delay_designer_phase_linearizer.py
@@ -135,7 +135,12 @@ class FirDesigner:
 
     def get_filter_as_ir(self) -> ImpulseResponse:
         """Get the phase filter as an ImpulseResponse."""
-        return ImpulseResponse(None, self.__design(), self.sampling_rate_hz)
+        return ImpulseResponse(
+            None,
+            self.__design(),
+            self.sampling_rate_hz,
+            constrain_amplitude=False,
+        )
 
     def __design(self) -> NDArray[np.float64]:
         """Compute filter."""
-- 
2.43.0


From bebbad65fc878483f5fb3a610d5e39c0b3baa1fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:28:23 +0000
Subject: [PATCH 221/225] fix: designed FIR filters are finite when the target
 magnitude vanishes at the last frequency

---
 .../group_delay_designer_phase_linearizer.py        | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/dsptoolbox/classes/group_delay_designer_phase_linearizer.py b/dsptoolbox/classes/group_delay_designer_phase_linearizer.py
index 47aecc6..181bd8e 100644
--- a/dsptoolbox/classes/group_delay_designer_phase_linearizer.py
+++ b/dsptoolbox/classes/group_delay_designer_phase_linearizer.py
@@ -180,11 +180,14 @@ class FirDesigner:
 
             # Interpolate in power spectrum
             target_magnitude = (
-                PchipInterpolator(
-                    frequency_vector_hz,
-                    target_magnitude**2.0,
-                    extrapolate=True,
-                )(new_freqs)
+                np.maximum(
+                    PchipInterpolator(
+                        frequency_vector_hz,
+                        target_magnitude**2.0,
+                        extrapolate=True,
+                    )(new_freqs),
+                    0.0,
+                )
                 ** 0.5
             )
 
-- 
2.43.0


From d96b966765051346b260ff4e6027bc20e7cd0347 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:34:07 +0000
Subject: [PATCH 222/225] fix: extra parameters of windows are not shared by
 every use of the window

---
 dsptoolbox/standard/enums.py | 60 ++++++++++++++++++++++++------------
 1 file changed, 41 insertions(+), 19 deletions(-)

diff --git a/dsptoolbox/standard/enums.py b/dsptoolbox/standard/enums.py
index ff80e69..9111142 100644
--- a/dsptoolbox/standard/enums.py
+++ b/dsptoolbox/standard/enums.py
@@ -374,9 +374,27 @@ class Window(Enum):
     def extra_parameter(self):
         return self.__extra_parameter
 
-    def with_extra_parameter(self, extra_parameter: float | tuple[float, float]):
-        """Add the extra parameter parameter to the window. Windows that
-        require an extra parameter are:
+    def __eq__(self, other):
+        if not isinstance(other, Window):
+            return NotImplemented
+        return self.value == other.value and np.array_equal(
+            getattr(self, "_Window__extra_parameter", None),
+            getattr(other, "_Window__extra_parameter", None),
+        )
+
+    def __hash__(self):
+        return hash(self._name_)
+
+    def __reduce_ex__(self, proto):
+        if not hasattr(self, "_Window__extra_parameter"):
+            return Window, (self.value,)
+        return Window(self.value).with_extra_parameter, (self.extra_parameter,)
+
+    def with_extra_parameter(
+        self, extra_parameter: float | tuple[float, float]
+    ) -> "Window":
+        """Get the window with an extra parameter. The window itself is left
+        unchanged. Windows that require an extra parameter are:
         - Kaiser
         - KaiserBesselDerived
         - Gaussian
@@ -389,8 +407,12 @@ class Window(Enum):
         Refer to `scipy.signal.windows` for more information.
 
         """
-        self.__extra_parameter = extra_parameter
-        return self
+        # Enum members are shared, so the parameter is set in a new object
+        new_window = object.__new__(Window)
+        new_window._name_ = self._name_
+        new_window._value_ = self._value_
+        new_window.__extra_parameter = extra_parameter
+        return new_window
 
     def to_scipy_format(self):
         """Parse to format for passing to
@@ -398,7 +420,7 @@ class Window(Enum):
 
         """
         if self.needs_extra_parameter():
-            if self == Window.GeneralGaussian:
+            if self.name == "GeneralGaussian":
                 return (
                     self.__to_str(),
                     self.extra_parameter[0],
@@ -408,28 +430,28 @@ class Window(Enum):
         return self.__to_str()
 
     def __to_str(self) -> str:
-        if self == Window.KaiserBesselDerived:
+        if self.name == "KaiserBesselDerived":
             return "kaiser_bessel_derived"
-        if self == Window.GeneralCosine:
+        if self.name == "GeneralCosine":
             return "general_cosine"
-        if self == Window.GeneralGaussian:
+        if self.name == "GeneralGaussian":
             return "general_gaussian"
-        if self == Window.GeneralHamming:
+        if self.name == "GeneralHamming":
             return "general_hamming"
 
         return self.name.lower()
 
     def needs_extra_parameter(self) -> bool:
         """When True, window type requires a new parameter."""
-        return self in (
-            Window.Kaiser,
-            Window.KaiserBesselDerived,
-            Window.Gaussian,
-            Window.GeneralCosine,
-            Window.GeneralGaussian,  # 2 parameters
-            Window.GeneralHamming,
-            Window.Dpss,
-            Window.Chebwin,
+        return self.name in (
+            "Kaiser",
+            "KaiserBesselDerived",
+            "Gaussian",
+            "GeneralCosine",
+            "GeneralGaussian",  # 2 parameters
+            "GeneralHamming",
+            "Dpss",
+            "Chebwin",
         )
 
     def __call__(self, n_values: int, symmetric: bool):
-- 
2.43.0


From 0bbd18893b71ed7a4c90733976df819e2ffcf00b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:58:17 +0000
Subject: [PATCH 223/225] fix: resampled filters keep their zeros at the
 Nyquist frequency

---
 dsptoolbox/standard/resampling.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dsptoolbox/standard/resampling.py b/dsptoolbox/standard/resampling.py
index 90b3b4d..903fcaa 100644
--- a/dsptoolbox/standard/resampling.py
+++ b/dsptoolbox/standard/resampling.py
@@ -74,9 +74,9 @@ def resample_filter(filter: Filter, new_sampling_rate_hz: int) -> Filter:
     z = f * (z - 1) / (z + 1)
 
     if add_to_poles:
-        p = np.hstack([p, [-f] * (len(z) - len(p))])
+        p = np.hstack([p, [-f] * add_to_poles])
     if add_to_zeros:
-        z = np.hstack([z, [-f] * (len(p) - len(z))])
+        z = np.hstack([z, [-f] * add_to_zeros])
 
     k /= np.real(np.prod(f - z) / np.prod(f - p))
 
-- 
2.43.0


From 4cf0426152f333a9e54d8731dc1a9e0aa58c5f1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:27:45 +0000
Subject: [PATCH 224/225] fix: fitting a parallel filter does not depend on the
 spectrum settings of the response

---
 dsptoolbox/classes/parallel_filter.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/dsptoolbox/classes/parallel_filter.py b/dsptoolbox/classes/parallel_filter.py
index 7afdb09..be15d1a 100644
--- a/dsptoolbox/classes/parallel_filter.py
+++ b/dsptoolbox/classes/parallel_filter.py
@@ -11,7 +11,7 @@ from .filterbank import FilterBank
 from .filter import Filter
 from .signal import Signal
 from ..generators import dirac
-from ..standard.enums import FilterCoefficientsType
+from ..standard.enums import FilterCoefficientsType, SpectrumMethod
 
 
 class ParallelFilter(RealtimeFilter):
@@ -158,6 +158,9 @@ class ParallelFilter(RealtimeFilter):
 
         """
         assert ir.number_of_channels == 1, "This is only valid for a single-channel IR"
+        # The settings for the spectrum of the response play no role here
+        ir = ir.copy()
+        ir.set_spectrum_parameters(method=SpectrumMethod.FFT)
         freqs, spectrum_channels = ir.get_spectrum()
         freqs = freqs[1:]
         spectrum_channels = spectrum_channels[1:]
-- 
2.43.0


From 6962decbbe5a9354ea090d2c0214fc2f9cde96a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:27:45 +0000
Subject: [PATCH 225/225] fix: find_modes does not depend on the spectrum
 settings of the responses

---
 dsptoolbox/room_acoustics/room_acoustics.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dsptoolbox/room_acoustics/room_acoustics.py b/dsptoolbox/room_acoustics/room_acoustics.py
index bb29cb3..9038c0b 100644
--- a/dsptoolbox/room_acoustics/room_acoustics.py
+++ b/dsptoolbox/room_acoustics/room_acoustics.py
@@ -184,7 +184,8 @@ def find_modes(
     # Pad signal to have a resolution of around 1 Hz
     length = signal.sampling_rate_hz
     signal = pad_trim(signal, length)
-    signal.spectrum_method = SpectrumMethod.FFT
+    # The settings for the spectrum of the responses play no role here
+    signal.set_spectrum_parameters(method=SpectrumMethod.FFT)
     f, sp = signal.get_spectrum()
 
     # Setting up frequency range
-- 
2.43.0

