"""Single source for properties.jsonl / MANIFEST.json / props.py."""
HOOKS = None
NOTE = ("All obligations generated from /repo's current source are discharged for all sizes, contents and declared parameters; reals for floats; "
        "torch primitive operations enter through assumed contracts; hyper-parameters fixed in a contract are listed configurations. ")
FN = "neuralcompression/functional/"
LY = "neuralcompression/layers/"
MO = "neuralcompression/models/"

PROPS = [
 dict(id="C01", module="c01_pad", title="Padding to a factor is minimal, divisible and invertible by cropping",
  statement="Padding an image to a factor returns an image whose height and width are the smallest multiples of the factor that are not smaller than the input's, together with the input's original height and width. The top-left corner of that original size is the input unchanged, and the added rows and columns follow the requested mode (reflect, replicate, circular, zeros).",
  over=["inputs"], quant="every batch, channel count, image size, factor >= 1, padding mode and pixel content (reflect: padding smaller than the image)",
  why="the tests sample a few sizes and factors and look at output sizes only",
  files=[FN+"_pad_image.py"], mech=[("pad_image_to_factor", FN+"_pad_image.py")],
  note=NOTE),
 dict(id="C02", module="hific", title="HiFiC decompress(compress(x)) is lossless after quantisation, at x's size",
  statement="For every image, decompressing what HiFiC's compress produced gives an image of exactly the input's size and batch whose pixels are the clamped synthesis of the quantised latents the encoder coded, using the same means and scales on both sides. The evaluation forward pass reports the same quantised latents and probabilities.",
  over=["inputs", "configurations"], quant="every image size (multiple of the padding factor or not), batch size and content; arbitrary network weights (layers uninterpreted)",
  why="tests compress one or two fixed sizes with one random model and compare shapes",
  files=[MO+"_hific_autoencoder.py", MO+"_hific_encoder_decoder.py"], mech=[("HiFiCAutoencoder.compress/decompress/forward", MO+"_hific_autoencoder.py"), ("HiFiCEncoder/HiFiCGenerator size laws", MO+"_hific_encoder_decoder.py")],
  note=NOTE + "Network layers are uninterpreted functions with size laws; compressai's entropy coder is assumed lossless for the integers it is given (exercised concretely)."),
 dict(id="C03", module="dvc", title="DVC decompress(compress(frames)) equals the encoder's own reconstruction",
  statement="For every pair of frames, decompressing a deep-video-compression bitstream against the same previous frame gives the reconstruction the encoder side computes, at the frame's exact size, including sizes that are odd at any downsampling level. Streams, latent shapes and decoder sizes handed over by compress are exactly those decompress consumes.",
  over=["inputs", "configurations"], quant="every frame size admitted by the model, batch size, content and (uninterpreted) network weights",
  why="tests use one power-of-two frame size",
  files=[MO+"deep_video_compression.py"], mech=[("DVC.compress / decompress / forward", MO+"deep_video_compression.py")],
  note=NOTE + "Networks are uninterpreted functions with size laws; compressai's entropy coder assumed lossless."),
 dict(id="C04", module="layers", title="Reported rate is the information content of the coded symbols",
  statement="Information content is the sum of -log_base(p) over the symbols covered by the requested reduction (all, per batch element, none), non-negative for probabilities, in bits by default, and independent of memory layout. The byte count a vector-quantised output reports is the bit width of an index times the number of indices, over eight.",
  over=["inputs", "configurations"], quant="every tensor of probabilities (rank 1, 2, 4 and any sizes), every listed base and reduction, every latent size",
  why="tests compare one random tensor per reduction",
  files=[FN+"_information_content.py", LY+"_vq_bottleneck.py"], mech=[("information_content", FN+"_information_content.py"), ("VQBottleneck.forward num_bytes", LY+"_vq_bottleneck.py")],
  note=NOTE + "Ranks 1, 2 and 4 and the listed bases/codebook sizes are the configurations covered."),
 dict(id="C05", module="prob", title="CDF, log-CDF and survival functions are the distribution's own",
  statement="The normal CDF and log-CDF helpers return Phi(x) and log Phi(x); the log-CDF stays finite and accurate far into both tails in the precision of the input. For every distribution, survival is 1 - CDF, log-survival its logarithm, and log-CDF the logarithm of that distribution's own CDF.",
  over=["inputs", "configurations"], quant="every finite input, location and scale; arbitrary distributions given only by a CDF",
  why="tests compare a few points near zero for the standard normal",
  files=[FN+"_ndtr.py", FN+"_log_ndtr.py", FN+"_log_cdf.py", FN+"_survival_function.py", FN+"_log_survival_function.py"],
  mech=[("ndtr/log_ndtr/log_cdf/survival_function/log_survival_function", FN)],
  note=NOTE + "Floating-point accuracy in the tails is a separate contract, bounded (seeded vectors, |z| <= 60, against scipy)."),
 dict(id="C06", module="prob", title="Uniform-noise distributions: probability is the unit-interval mass",
  statement="A distribution perturbed by uniform noise assigns each value y the base distribution's mass on [y-1/2, y+1/2]; log-probability is its logarithm and batch/event shapes are the base's. Its CDF, survival function, mean and quantisation offset are the base's; samples add independent noise in [-1/2, 1/2] to every element, and tails leave the requested mass outside.",
  over=["inputs", "configurations"], quant="every location, scale, value and batch size",
  why="tests sample a handful of points of one distribution",
  files=["neuralcompression/distributions/_uniform_noise.py", "neuralcompression/distributions/_noisy_normal.py", FN+"_lower_tail.py", FN+"_upper_tail.py", FN+"_estimate_tails.py"],
  mech=[("UniformNoise", "neuralcompression/distributions/_uniform_noise.py")],
  note=NOTE + "Sampling and iterative tail search are bounded contracts (seeded runs)."),
 dict(id="C07", module="prob", title="Soft rounding, its inverse and offsets obey their defining formulas",
  statement="Soft rounding interpolates between identity and rounding, keeps every value in its unit cell, and its inverse undoes it; the conditional mean is the inverse shifted by half. The quantisation offset is the mean minus the rounded mean (zero when there is no mean), and log(exp(x)-1) is computed for all positive x without overflow.",
  over=["inputs"], quant="every input and every sharpness alpha in the stated ranges",
  why="tests check a few values against stored numbers",
  files=[FN+"_soft_round.py", FN+"_soft_round_inverse.py", FN+"_soft_round_conditional_mean.py", FN+"_quantization_offset.py", FN+"_log_expm1.py"],
  mech=[("soft_round family", FN)], note=NOTE),
 dict(id="C08", module="layers", title="Lower bounds clamp exactly and pass only the documented gradient",
  statement="A lower-bounded tensor is the elementwise maximum of input and bound. Its gradient is the documented surrogate: unchanged for 'identity', masked where the input is below the bound for 'disconnected', and for 'identity_if_towards' (the default) masked only where the input is below the bound and the update would push it further down.",
  over=["inputs"], quant="every input, bound (number or tensor) and upstream gradient",
  why="tests check one small tensor per mode",
  files=[FN+"_lower_bound.py", LY+"_simplified_gdn.py"], mech=[("_LowerBound.forward/backward", FN+"_lower_bound.py"), ("_ClampMin", LY+"_simplified_gdn.py")],
  note=NOTE + "The real backward functions are executed on the context saved by the real forward; torch's engine that calls them is trusted."),
 dict(id="C09", module="layers", title="GDN, inverse GDN and channel norm compute their defining formulas",
  statement="GDN divides (inverse GDN multiplies) each channel by beta + sum gamma*|x| with gamma clamped non-negative and beta clamped to its minimum; the parameters stay in that set, start at the documented values and receive the gradient of that formula. Channel normalisation standardises each pixel over its channels with the unbiased variance plus epsilon, then applies the affine parameters.",
  over=["inputs", "configurations"], quant="every input, parameter value (valid or not) and size; 1-4 channels",
  why="tests check shapes and one forward",
  files=[LY+"_simplified_gdn.py", LY+"_channel_norm.py"], mech=[("SimplifiedGDN/SimplifiedInverseGDN", LY+"_simplified_gdn.py"), ("ChannelNorm2D", LY+"_channel_norm.py")],
  note=NOTE + "Gradients through torch autograd are a bounded contract (30 seeded layers)."),
 dict(id="C10", module="layers", title="Vector quantisation picks the nearest codeword and accounts for it",
  statement="Every latent vector is replaced by its nearest (optionally normalised) codeword, reported indices and distances are those of that choice, and the losses are mean squared errors training the encoder and codebook respectively with straight-through gradients. Hit counters grow by exactly the number of uses of each codeword, reset returns them to zero, and usage metrics follow from them.",
  over=["inputs", "histories"], quant="every latent, codebook, batch and spatial size; any earlier counter values",
  why="tests check shapes and one small codebook",
  files=[LY+"_q_bottleneck.py", LY+"_vq_bottleneck.py", LY+"_normalize_latent.py", LY+"_project_latent.py"], mech=[("QBottleneck.quantize_vectors", LY+"_q_bottleneck.py"), ("VQBottleneck.forward", LY+"_vq_bottleneck.py")],
  note=NOTE + "Gradients and probabilistic choice are bounded contracts."),
 dict(id="C11", module="metrics", title="MS-SSIM is the multi-scale SSIM of the paper, per image then reduced",
  statement="The multi-scale structural similarity of a batch is, per image, the mean over channels of the product over scales of the clamped mean contrast-structure (all but the last scale) and mean SSIM (last scale), each raised to its scale's exponent, with Gaussian windows over valid positions only and the given constants. Between scales images are halved by 2x2 averaging with odd borders replicated; images too small for the window at any scale are refused; the reduction is over the batch only.",
  over=["inputs", "configurations"], quant="every batch size, image size and content; listed window sizes, constants, exponents and reductions",
  why="tests compare a few fixed images with one stored implementation",
  files=[FN+"_multiscale_structural_similarity.py"], mech=[("multiscale_structural_similarity", FN+"_multiscale_structural_similarity.py")],
  note=NOTE + "Deductive: windows 1 and 3, one and two scales, 1-2 channels, any image size; the five-scale default is a bounded contract."),
 dict(id="C12", module="metrics", title="Metrics accumulate every image exactly once, however batches are split",
  statement="Each accumulating metric (MS-SSIM, DISTS, FID, SwAV-FID, KID) adds exactly one contribution per image to the state it already had: scores and counts grow by the batch's, features are appended to the real or fake side they belong to, invalid input is refused before anything is accumulated, and reset empties the state. The computed value is the mean (or sum) of the scores, or the distance of all real against all fake features with the constructor's parameters; PSNR is 20 log10(range) - 10 log10(MSE) also for 8-bit images.",
  over=["inputs", "histories"], quant="every earlier state, batch size, image size and content, hence every split of a data set into batches (by induction on updates)",
  why="tests run a few updates of one batch size and never compare splits",
  files=["neuralcompression/metrics/_msssim.py", "neuralcompression/metrics/_dists.py", "neuralcompression/metrics/_fid.py", "neuralcompression/metrics/_fid_swav.py", "neuralcompression/metrics/_kid.py", "neuralcompression/metrics/_calc_psnr.py"],
  mech=[("update/compute of the torchmetrics classes", "neuralcompression/metrics/")],
  note=NOTE + "Backbones are arbitrary deterministic functions (no weights offline); torch-fidelity's distance functions are assumed in the proof and exercised concretely; numpy PSNR and pickle size are bounded."),
 dict(id="C13", module="metrics", title="Patch FID feeds each metric every patch of both grids, once",
  statement="Patch-based FID cuts the images into the full non-overlapping patches of the regular grid and, when both sides are at least one and a half patches, also of the grid shifted by half a patch; every given metric receives exactly these patches, as 8-bit images, originals as real and predictions as fake, and the returned count is the number of patches per side.",
  over=["inputs", "configurations"], quant="every batch size, image size not below the patch and content; patch sizes 2, 3, 4 (256 bounded); every non-empty choice of metrics",
  why="tests use one image size and mock metrics",
  files=["neuralcompression/metrics/_update_patch_fid.py"], mech=[("update_patch_fid", "neuralcompression/metrics/_update_patch_fid.py")],
  note=NOTE),
 dict(id="C14", module="layers", title="Colour and intensity conversions are exact and reject invalid input",
  statement="Scaling to 0..255 rounds each value in [0,1] to the nearest of 256 levels and refuses values outside [0,1]. HSV-to-RGB follows the standard conversion for every hue, and optical flow is coloured by direction (hue) and normalised magnitude, giving valid RGB; malformed inputs are rejected.",
  over=["inputs"], quant="every image size and content",
  why="tests compare a few stored colours",
  files=[FN+"_hsv_to_rgb.py", FN+"_image_to_255_scale.py", FN+"_optical_flow_to_color.py"], mech=[("hsv_to_rgb, optical_flow_to_color, to-255 scaling", FN)],
  note=NOTE),
 dict(id="C15", module="dvc", title="Dense image warp samples the image at the regular grid plus the flow",
  statement="Warping an image by a flow field gives, for every flow vector, the image sampled at the regular [-1,1] grid position of that vector plus the flow (horizontal component first), with exactly the requested interpolation, border handling and corner alignment; the output has the flow's size. With aligned corners zero flow is the identity and whole-pixel flow is a shift; a flow without two components or of another dtype is rejected.",
  over=["inputs", "configurations"], quant="every image and flow size, content and flow; every mode/padding/alignment combination",
  why="tests compare with a stored grid_sample call on a few random sizes",
  files=[FN+"_dense_image_warp.py"], mech=[("dense_image_warp", FN+"_dense_image_warp.py")],
  note=NOTE),
 dict(id="C16", module="losses", title="Training and perceptual losses compute their defining formulas",
  statement="The GAN losses are the mean (per-pixel, per-class for OASIS, fake being class 0) cross-entropies of their definitions, halved over real and fake for discriminators; MSE loss is the scaled mean squared error and MSE-LPIPS the weighted sum of MSE and mean LPIPS. The gradient-safe LPIPS is the layer-summed spatial mean of weighted squared differences of features normalised with epsilon inside the root, with network frozen and in evaluation mode; targets or labels of the wrong rank, count or type are refused.",
  over=["inputs", "configurations"], quant="every batch and spatial size, logits, labels, targets, images; listed loss parameters and reductions; arbitrary feature extractors",
  why="tests compare one random tensor per loss or only shapes",
  files=["neuralcompression/loss_fn/", FN+"_lpips.py"], mech=[("BCE, OASIS, MSE, MSE-LPIPS, NormFixLPIPS, lpips", "neuralcompression/loss_fn/")],
  note=NOTE + "Trunk networks are arbitrary two-layer feature extractors (weights cannot be downloaded); gradients bounded."),
 dict(id="C17", module="losses", title="Learning-rate schedules follow ramp, plateau and cosine exactly",
  statement="The schedules multiply every parameter group's base rate by a factor that rises linearly over the ramp, is one on the plateau (or from the ramp's end), falls along a quarter cosine, and never leaves [min_val, 1]; for ramp-constant-cosine the decay occupies exactly the last cosine steps and reaches min_val at the last step. The identity schedule never changes the rate.",
  over=["inputs", "configurations"], quant="every ramp, plateau and decay length and every step up to the total; any earlier history (factor depends on the step only)",
  why="no test covers the schedules",
  files=["neuralcompression/optim/"], mech=[("RampConstCosineLRSchedule, RampCosineLRSchedule, IdentitySchedule", "neuralcompression/optim/")],
  note=NOTE + "torch's LambdaLR is executed, not modelled."),
 dict(id="C18", module="losses", title="Rate targeting charges each image by its own rate and the stage's target",
  statement="In the ILLM trainer the target rate and the second lambda are the base value times the factor of the current training stage (factor k until step k, the last one afterwards). The rate loss is the mean over images of their noisy bits per pixel times the high lambda if that image's quantised rate exceeds the target and the low one otherwise; reported rates are batch means of bits per pixel, and the discriminator's half of a split batch is disjoint from the model's.",
  over=["inputs", "histories"], quant="every stage list of up to three steps, global step, image size, likelihoods and batch size",
  why="the training modules have no tests",
  files=["projects/illm/target_compression_module.py", "projects/illm/gan_compression_module.py", "neuralcompression/loss_fn/_target_rate_config.py"], mech=[("rate_loss, _get_scheduled_rate_param", "projects/illm/target_compression_module.py")],
  note=NOTE + "lightning, hydra and omegaconf are absent and replaced by empty shells; the steps themselves are C25."),
 dict(id="C19", module="vct", title="Window patching is a lossless, aligned tiling of the frame",
  statement="Patching a frame pads it (reflecting) to a multiple of the stride, and gives one row per stride-sized tile in raster order, whose tokens are exactly the pixels of the window around that tile (of the given patch size, centred on the tile) in raster order. Unpatching rows of stride-sized tiles with the crop returns the original frame for every size; patches smaller than the stride, odd overhang, or a wrong number of tokens are refused.",
  over=["inputs", "configurations"], quant="every batch, channel count, height and width; listed stride/patch-size pairs",
  why="tests check a few sizes and only shapes or one round trip",
  files=["projects/torch_vct/neural/patcher.py"], mech=[("Patcher.forward, unpatch", "projects/torch_vct/neural/patcher.py")],
  note=NOTE),
 dict(id="C20", module="vct", title="VCT bottleneck codes losslessly what its likelihoods and tables describe",
  statement="The Gaussian conditional with location and scale shift quantises each value to round(x - round(mean)) + round(mean); with training noise it adds uniform noise instead. Its likelihood is the Gaussian mass of the unit bin around the value under the looked-up grid scale and mean offset, floored at 1e-9. Decompressing with the same means and scales returns exactly the quantised tensor for all values (tails included); encoder, decoder and likelihood use the same table entry, the nearest grid entry clipped at the grid's ends, and every coding table is a valid cumulative distribution.",
  over=["inputs", "configurations"], quant="every size, values, means and scales; listed grid sizes; table contents for listed grids (bounded)",
  why="tests code one random tensor in the ordinary range",
  files=["projects/torch_vct/neural/bottlenecks.py"], mech=[("GsnConditionalLocScaleShift, ContinuousIndexedGaussianConditional", "projects/torch_vct/neural/bottlenecks.py")],
  note=NOTE + "compressai's range coder is assumed lossless given equal tables and indexes; the construction of the tables is a bounded check."),
 dict(id="C21", module="vct", title="VCT entropy model is causal and its decoder recovers the encoder's symbols",
  statement="The prediction for a token depends only on the context frames and on earlier tokens (in raster order within its own window), so coding token by token and decoding token by token see identical means and scales. Compressing returns what the decoder recovers, whether or not decoding is run, with eight bits per byte of string; evaluation forward gives the same quantisation and the likelihoods of those symbols. The context is exactly context_len latents, the oldest repeated when fewer exist, each processed window by window; unsupported lengths are refused.",
  over=["inputs", "histories"], quant="every frame size, patch count, latent content, context and all weights (attention and feed-forward layers arbitrary); listed small widths, windows and heads",
  why="tests run one configuration with one size and random weights",
  files=["projects/torch_vct/neural/entropy_model.py", "projects/torch_vct/neural/entropy_model_layers.py", "projects/torch_vct/neural/layers_utils.py"], mech=[("VCTEntropyModel.compress/_encode/_decode/forward", "projects/torch_vct/neural/entropy_model.py")],
  note=NOTE + "The patcher and bottleneck enter by the contracts proved in C19 and C20; bit-determinism of floating point between encoder and decoder is assumed."),
 dict(id="C22", module="vct2", title="VCT pipeline keeps encoder and decoder in step and preserves the video's size",
  statement="Frame t is coded against exactly the last context_len (or all, if fewer) processed quantised latents, the first against a learned per-channel token; a decoder given only the transmitted latents and features reconstructs the same frames, with or without a cache (a memoised call always returns the function's value). In evaluation videos are reflect-padded to multiples of 16 and cropped back, so output size equals input size; rate is minus the sum of log2 likelihoods, total or per frame. compress_video reports one rate per frame and leaves later forward calls unchanged; transforms treat frames independently, in any chunking.",
  over=["inputs", "histories", "configurations"], quant="every video size (at least 16 for reflection), batch, contents and all transform and entropy-model weights; listed frame counts, context lengths and groupings; memoisation histories bounded",
  why="the pipeline has no tests; histories longer than the context and sizes off the factor are where it breaks",
  files=["projects/torch_vct/model_pipeline.py", "projects/torch_vct/neural/transforms.py", "projects/torch_vct/utils/memoize.py", "projects/torch_vct/datamodules/video_data_api.py"],
  mech=[("VCTPipeline.encode_scenes/decode_scenes/forward/compress_video", "projects/torch_vct/model_pipeline.py"), ("memoize", "projects/torch_vct/utils/memoize.py")],
  note=NOTE + "The entropy model enters by what C21 proves (a deterministic function of latent and context); memoisation histories are a bounded check."),
 dict(id="C23", module="vct2", title="VCT training objective, reports and schedules compute their definitions",
  statement="Training and validation loss is the mean over frames of 255^2 times lambda times the frame's mean squared error plus its bits per pixel, frames after the first weighted ten times. Reported PSNR is that of the frames (integer PSNR: clamped to [0,1] and rounded to 255 levels), never computed in wrapping integer arithmetic; test bits per pixel divide the summed frame bits by the pixels of those frames, with and without the first frame. The schedules are the smaller of a linear ramp and a half cosine, a linear ramp then constant, or constant then half cosine, never above the base rate nor negative.",
  over=["inputs", "configurations"], quant="every video size, batch, contents, likelihoods, bits, lambda, ramp and total length and step; listed frame counts",
  why="the training module and its schedules have no tests",
  files=["projects/torch_vct/model_lightning.py", "projects/torch_vct/utils/schedulers.py"], mech=[("VCTModule.training_step/validation_step/test_step", "projects/torch_vct/model_lightning.py"), ("schedulers", "projects/torch_vct/utils/schedulers.py")],
  note=NOTE + "lightning, hydra and omegaconf are absent and replaced by empty shells; torchmetrics' PSNR enters by its definition."),
 dict(id="C24", module="rans", title="The rANS entropy coder is lossless",
  statement="Decoding a compressed message with the codec that encoded it returns exactly the symbols, and leaves the buffer exactly as it was before encoding, so messages can be chained on one buffer and bits-back coding gives its bits back. Holds for any number of interleaved lanes, message length, per-lane CDFs and precision up to 24 bits, provided the buffer has room; bytes supplied on demand when a bits-back pop exhausts the stack go beneath what is on it; the coder state stays in [2^24, 2^32), at most three bytes per lane are written per symbol, and a buffer that does not fit is refused when decoding.",
  over=["inputs", "histories", "configurations"], quant="every coder state, lane count, symbol intervals and buffer contents, precision 1 to 24; framing for batches of one and two; whole messages and bits-back chains also run concretely (bounded)",
  why="the project's own test codes one random message with one distribution and is not run where jax is absent",
  files=["projects/jax_entropy_coders/craystack/_backend.py", "projects/jax_entropy_coders/craystack/codecs.py", "projects/jax_entropy_coders/craystack/coder.py"],
  mech=[("push_symbols, pop_symbols", "projects/jax_entropy_coders/craystack/_backend.py"), ("encode, decode", "projects/jax_entropy_coders/craystack/coder.py")],
  note="jax is absent here: the coder's source is executed against stated contracts of the jax.numpy and jax.lax operations it uses (numpy in concrete runs). CDFs are uint32 and the tail capacity sufficient, as the code documents."),
 dict(id="C25", module="illm", title="ILLM train, validation and test steps optimise and report what they define",
  statement="A training step minimises distortion weight times distortion plus rate loss (plus generator weight times generator loss for GANs): gradients are cleared, taken from that loss alone, clipped if asked, applied in one step, and the schedule advances once; the discriminator is trained on real images against detached reconstructions, each with its own context and target, and neither network moves in the other's step; quantiles follow the quantile loss. Conditional and unconditional discriminators both work. Logged values are those of the step; quality metrics see clamped 8-bit-scaled reconstruction and input, FID/KID real and fake on their sides; test bits per pixel is 8 bytes over all pixels of the batch; frozen parts are in no optimizer and all others in exactly one.",
  over=["inputs", "histories", "configurations"], quant="every batch and image size and content, arbitrary networks, losses and weights; with and without clipping, Monte-Carlo split, projector, context and quantile optimizer; parameter updates through autograd bounded",
  why="the training modules have no tests",
  files=["projects/illm/target_compression_module.py", "projects/illm/gan_compression_module.py", "projects/illm/image_module.py", MO+"_hyperprior_autoencoder.py", MO+"_unet_discriminator.py"],
  mech=[("training_step / eval_step / test_step", "projects/illm/"), ("log_quality_metrics", "projects/illm/image_module.py"), ("collect_parameters", MO+"_hyperprior_autoencoder.py")],
  note=NOTE + "lightning, hydra and omegaconf are absent and replaced by empty shells; networks, losses and torchmetrics metrics are arbitrary functions; updates through torch autograd and parameter grouping are bounded contracts."),
 dict(id="C26", module="vqvae", title="VQ-VAE autoencoder keeps size, stays frozen where told, attends by channel",
  statement="In evaluation the VQ-VAE autoencoder pads an image at the right and bottom by reflection to a multiple of 2^(levels-1), encodes, applies the bottleneck, decodes and crops back, so the output has the input's size; in training divisible images pass unpadded. Latents have embed_dim channels at 1/factor resolution. A frozen encoder or bottleneck runs in evaluation mode without gradients at every call, whatever train() was called; the others keep their mode. The projector returns the bottleneck's index for each latent position and always stays in evaluation mode. Cross-covariance attention gives, per head, the softmax over key channels of temperature times cosine similarity (over tokens) of query and key channels, applied to the values and projected.",
  over=["inputs", "configurations", "histories"], quant="every batch, height, width, token count, contents and weights (networks arbitrary for the pipeline); listed widths, levels and options",
  why="the VQ-VAE models and attention layer have no tests",
  files=[MO+"_vqvae_xcit_autoencoder.py", MO+"_vqvae_projector.py", "neuralcompression/layers/_xca.py"],
  mech=[("VqVaeXCiTAutoencoder.forward", MO+"_vqvae_xcit_autoencoder.py"), ("XCA.forward", "neuralcompression/layers/_xca.py"), ("VqVaeProjector", MO+"_vqvae_projector.py")],
  note=NOTE + "group norm and convolutions are arbitrary functions with torch's size laws."),
 dict(id="C27", module="data", title="Datasets yield every image and clip exactly once, in order, untouched",
  statement="Each dataset's length and items are exactly the files of its split, each once and in name (list) order, whatever order the file system lists them in; an item is the file's content with the given transforms applied once. Vimeo-90k in image mode maps item i to frame i mod k of clip i div k, in video mode to the clip's first k frames stacked in order. Open Images drops the known-invalid names from training only. CLIC video goes, in every epoch, through every sampled video once, all its clips consecutively, frames in order. Kodak downloads all 24 images (into an existing directory only when forced) and refuses data whose hash differs. Invalid splits and arguments are refused.",
  over=["inputs", "histories", "configurations"], quant="Vimeo: every number of clips, frames per group, index and contents; CLIC video: arbitrary clip boundaries and times (histories of 5 clips); file listings and downloads bounded",
  why="tests load a handful of files listed in a lucky order and never iterate a second epoch",
  files=["neuralcompression/data/"+f for f in ("_vimeo_90k_septuplet.py", "_clic_2020_video.py", "_clic_2020_image.py", "_div2k_dataset.py", "_openimages_v6.py", "_kodak.py")],
  mech=[("Vimeo90kSeptuplet.__getitem__", "neuralcompression/data/_vimeo_90k_septuplet.py"), ("CLIC2020Video.__next__", "neuralcompression/data/_clic_2020_video.py")],
  note="Image decoding, Path.glob (any order) and pytorchvideo's FrameVideo enter by assumed contracts; folder listings, list files, hashes and downloads (served by a stand-in, no network) are bounded contracts."),
 dict(id="C28", module="zoo", title="Zoo and hub load each quality's own weights; flop counts add up",
  statement="Every zoo and torch.hub entry point builds the library's model and, when pretrained, fetches and strictly loads exactly the published checkpoint of its family and quality level (its documented target rate), whose parameter names and shapes the model keeps; otherwise nothing is fetched; unknown weight names are refused. Counting flops charges one flop per output element for elementwise operations (in place or not), the estimated ones only when asked, one per multiply-accumulate otherwise; user overrides win for that call only; the breakdown sums to the total and uncounted operations are reported.",
  over=["configurations", "inputs"], quant="every entry point, via zoo and hub, with pretrained given or defaulted; every operator override; traced modules bounded",
  why="no test calls the entry points (they need the network) and the flop tests check four small modules",
  files=["hubconf.py", "neuralcompression/zoo/", FN+"_count_flops.py"], mech=[("quality entry points", "neuralcompression/zoo/_msillm.py"), ("hub wrappers", "hubconf.py"), ("count_flops", FN+"_count_flops.py")],
  note="torch.hub.load_state_dict_from_url and fvcore's FlopCountAnalysis enter by assumed contracts; the set of entry points is finite and enumerated completely; counts of traced modules are a bounded contract."),
 dict(id="C29", module="bbdiff", title="Bits-back diffusion coding is lossless and its rates are what was coded",
  statement="For any hierarchical latent model, decoding after encoding returns exactly the batches (last first) and the message as it was before: every latent level is popped and pushed back with equal posterior and prior parameters, the data with equal likelihood parameters. Data of the wrong shape or outside [0, 2^prec) is refused with nothing coded. Quantisation goes to the nearest level between data_min and data_max; the likelihood's bins are centred on those levels with the outer bins reaching to infinity and deviations never below the configured minimum. Total, effective and used rates are bits per dimension of the message, its growth, and its growth plus the bits borrowed by the first batch; a codec restored from a saved state reports and decodes alike. The diffusion model conditions each level on the value (its bin's centre) of the level above, at that level's time step. A respaced process takes exactly the requested number of steps, each section's first and last included.",
  over=["inputs", "histories", "configurations"], quant="every model, data, initial message and message length; 1 to 3 levels, 1 or 2 batches, two-element shape in the proof (larger in concrete runs); tracking and uniform bins bounded",
  why="the project's test codes one batch with one model and cannot run without craystack",
  files=["projects/bits_back_diffusion/bits_back_diffusion/codec.py"], mech=[("BitsBackCodec.encode/decode", "projects/bits_back_diffusion/bits_back_diffusion/codec.py"), ("DiffusionModel", "projects/bits_back_diffusion/bits_back_diffusion/codec.py")],
  note="craystack and improved_diffusion are absent: messages are abstract stacks obeying the inverse law of push and pop with equal codecs (a numpy rANS in concrete runs); models are arbitrary functions."),
 dict(id="C30", module="arith", title="The arithmetic coder is lossless or refuses",
  statement="Decoding what the arithmetic coder encoded, with the inverse of the CDF function used, returns exactly the messages (each cut to its length), for any batch, message of byte symbols and CDF function, static or adaptive, whose symbol intervals are non-empty within [0, 2^16]; encode raises an error when the buffer is too small and never returns a stream with bits missing. Encoder and decoder narrow and renormalise the same range in step: the range never becomes empty, its width exceeds 2^30 before each symbol, every written bit is read once in order, carries included, and the decoder's value stays inside the range of each encoded symbol.",
  over=["inputs", "histories", "configurations"], quant="every range, symbol interval, pending-bit count, stream position and content (per step, by induction over the message); whole messages up to 60 symbols concretely (bounded)",
  why="the project's tests code random messages with an ample buffer and are not run where jax is absent",
  files=["projects/jax_entropy_coders/jax_arithmetic_coder.py"], mech=[("_enqueue, _dequeue", "projects/jax_entropy_coders/jax_arithmetic_coder.py"), ("encode, decode", "projects/jax_entropy_coders/jax_arithmetic_coder.py")],
  note="jax is absent here: the coder's source is executed against stated contracts of the jax scalar and control-flow operations it uses; the float64 division in the decoder is exact to the floor for its operand range (argued in DESIGN.md)."),
 dict(id="C31", module="dvctrain", title="Staged DVC training optimises and reports the group's true rate and distortion",
  statement="For every stage, group length, batch and image size: the I-frame is replaced by the pretrained model's decoded image (evaluation mode, no gradients, other frames untouched) and costs the bits per pixel of all its likelihoods; each P-frame is coded against the previous reconstruction, and its loss is lambda times the mean squared error (stage 1: the mean over the pyramid levels) plus the flow and residual bits per pixel where that stage codes them. A training step makes, per P-frame, one clipped optimizer step on that frame's gradient alone; the schedule advances once; quantiles step once, on their own loss, with their own optimizer (stage 1 has none). Logged group loss, distortion and rates are the sums over the group, the I-frame's bits included in the total rate, over the number of frames, in training and validation alike; validation trains nothing. Every trainable parameter is in exactly one optimizer, and recomposing hands the trained parts, and only those, to the model.",
  over=["inputs", "configurations", "histories"], quant="all batch and image sizes, images, losses and networks; every stage; groups of 1, 2, 3 and 6 P-frames; parameter groups and autograd on the small real model (bounded)",
  why="the project has no tests; a wrong reference frame, accumulated gradient or missing rate term trains quietly and reports a wrong rate",
  files=["projects/deep_video_compression/_utils.py", "projects/deep_video_compression/dvc_module.py"], mech=[("DvcStage*.compute_batch_loss", "projects/deep_video_compression/_utils.py"), ("DvcModule.training_step, validation_step, compress_iframe", "projects/deep_video_compression/dvc_module.py")],
  note="pytorch_lightning is absent (empty shell) and torchmetrics.PSNR a recorder; optimizers are recorders and networks uninterpreted functions in the proofs."),
 dict(id="C32", module="runs", title="Interrupted runs resume where they stopped and keep their checkpoints",
  statement="The bits-back encoder and decoder scripts, stopped after any number of batches and restarted any number of times, end with every batch decoded once, equal to the data and in order, and a final encode checkpoint that holds all of them. The step read from a checkpoint's file name is the one written into it, however many digits it has, and the newest checkpoint of the requested kind is the one taken (an explicitly configured file is kept). ILLM and DVC training refuse to start over existing checkpoints unless told to resume or overwrite, resume from last.ckpt exactly when it exists and overwriting is off, and never alter existing checkpoint files themselves; DVC stage settings override the shared ones without changing them. Weights loaded from a training checkpoint are exactly the saved entries under the prefix; missing entries are refused.",
  over=["histories", "crash_points", "configurations"], quant="every switch and every state of the checkpoint directory (exhaustive); interruption points, save intervals and checkpoint numbers up to 10^9 (bounded)",
  why="there are no tests of the scripts; a wrong checkpoint choice shows only after a restart of a long run",
  files=["projects/bits_back_diffusion/encode.py", "projects/bits_back_diffusion/bits_back_diffusion/script_util.py", "projects/illm/train.py", "projects/deep_video_compression/train.py"], mech=[("encode, decode, main", "projects/bits_back_diffusion/encode.py"), ("update_checkpoint, parse_resume_step_from_filename", "projects/bits_back_diffusion/bits_back_diffusion/script_util.py"), ("fetch_checkpoint, pretrained_state_dict", "projects/illm/train.py"), ("run_training_stage", "projects/deep_video_compression/train.py")],
  note="hydra, omegaconf, lightning, wandb and improved_diffusion are absent: stand-ins hand configuration and checkpoints on; a process killed in the middle of writing a file is not covered."),
]
NA = []
