"""Regenerates known_findings.jsonl: known findings + one entry per fix commit."""
import json, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS = {
 'PolynomialDecay reports NaN': ['C01'],
 'PruneLowMagnitude config loses': ['C04', 'C06'],
 'block pruning fails when blocks span': ['C03'],
 'block pruning ranks shifted windows': ['C03'],
 'FixedQuantizer ignores num_bits': ['C16'],
 'quantize config equality ignores': ['C22'],
 'MovingAverageQuantizer cannot be used with per_axis': ['C16', 'C17'],
 'QuantizeLayer creates its weights twice': ['C22'],
 'quantized models cannot be reloaded from the native': ['C22'],
 'fix_input_output_range and remove_input_range drop': ['C33'],
 'cluster_scope cannot deserialize': ['C14'],
 'strip_clustering misplaces weights': ['C15'],
 'clustered layers ignore training mode': ['C14'],
 'stripped MultiHeadAttention layers keep': ['C15'],
 'sparsity-preserving clustered models lose': ['C12', 'C14'],
 'partially commuting GatherEncoder': ['C31'],
 'random_signs may return zero': ['C29'],
 'one dense layer disables sparsity': ['C26'],
 'weight compression loses the weights': ['C27'],
 'weight compression wrappers ignore training': ['C28'],
 'evaluating a model in compression training': ['C28'],
 'check_sparsity_m_by_n fails': ['C04'],
 'pruned recurrent layers cannot be rebuilt': ['C06'],
 'models with several pruned weights': ['C06'],
 'pruned MultiHeadAttention layers cannot': ['C06'],
 'pruning a model drops or trips': ['C08'],
 'per-channel clustering skips Conv2D': ['C10', 'C14'],
 'clustering a model drops or trips': ['C14'],
 'sparsity-preserving per-channel clustering fails': ['C11', 'C12'],
 'clustered recurrent layers cannot be reloaded': ['C14'],
 'clustered MultiHeadAttention layers cannot': ['C14'],
 'sparsity-preserving clustering of all-zero': ['C12'],
 'models with nested models cannot be saved': ['C15'],
 'stripped clustered Bidirectional': ['C15'],
 'AllValuesQuantizer ignores per_axis': ['C16', 'C17'],
 'packing tensors of unknown size': ['C29'],
 'weight compression hangs on nested': ['C27'],
 'clustered weights change sign for large': ['C10', 'C13'],
 'compression PolynomialDecay fails for integer': ['C28'],
 "keep the order of a layer's inputs": ['C19', 'C20'],
 'quantize models with lambda layers': ['C18', 'C19', 'C21'],
 'match layer patterns against whole': ['C20', 'C21', 'C24'],
 'fuse dense batch normalization before': ['C21', 'C24'],
 'leave custom quantize configs alone': ['C18', 'C21'],
 'do not quantize twice before n-bit': ['C22', 'C24'],
 'keep the bit widths of several n-bit': ['C24'],
 "keep the scheme's quantize config": ['C24', 'C25', 'C26'],
 'give every quantizer a config': ['C22'],
 'rebuild wrapped quantize configs': ['C22'],
 'set the input range of quantize layers': ['C33'],
 'do not train the weights of frozen': ['C18'],
 'compute the output shape of a quantized': ['C22'],
 'leave layers alone that take several': ['C19', 'C20'],
 'keep call arguments of layers': ['C19', 'C20'],
 'transform models with empty list': ['C19', 'C20'],
 'transform only the given candidate': ['C20'],
 'match patterns with inputs against': ['C20'],
 'PCQAT zeroes a centroid': ['C26'],
 'CQAT splits the clusters': ['C26'],
 'strip_clustering_cqat skips layers': ['C26'],
 'ClusteringSummaries': ['C35'],
 'PruningSummaries': ['C35'],
 'per-channel clustering of channels_first': ['C10'],
 'CQAT of channels_first': ['C26'],
}
path = os.path.join(V, 'known_findings.jsonl')
known = [l.strip() for l in open(path) if l.strip() and json.loads(l)['status'] == 'known']
log = subprocess.run(['git', '-C', '/repo', 'log', '--reverse', '--format=%h %s', 'ccc06d8..HEAD'],
                     capture_output=True, text=True, check=True).stdout.splitlines()
out = list(known)
for line in log:
  h, s = line.split(' ', 1)
  s = s[5:]
  hit = [k for k in PROPS if s.startswith(k)]
  assert len(hit) == 1, (s, hit)
  for p in PROPS[hit[0]]:
    out.append(json.dumps(dict(property=p, status='fixed', commit=h,
                               what='fixed: property=%s %s %s' % (p, h, s))))
open(path, 'w').write('\n'.join(out) + '\n')
print(len(known), 'known', len(out) - len(known), 'fixed')
