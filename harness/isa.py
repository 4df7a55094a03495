"""Which instruction-set extension each instruction of the addon needs, and a copy of the addon in which those, cpuid and xgetbv trap."""
import json, os, re, subprocess

SSE3 = {'lddqu', 'movddup', 'movsldup', 'movshdup', 'haddps', 'haddpd', 'hsubps', 'hsubpd', 'addsubps', 'addsubpd', 'fisttp'}
SSSE3 = re.compile(r'(pshufb|palignr|pabs[bwd]|pmaddubsw|phadd\w+|phsub\w+|psign[bwd]|pmulhrsw)$')
SSE41 = re.compile(r'(pblend\w+|blend\w+|pextr[bdq]|pinsr[bdq]|pmovzx\w+|pmovsx\w+|ptest|pcmpeqq|packusdw|pmin(sb|uw|ud|sd)|pmax(sb|uw|ud|sd)|pmulld|pmuldq|mpsadbw|round\w+|insertps|extractps|movntdqa|phminposuw|dpp[sd])$')
SSE42 = re.compile(r'(pcmpgtq|pcmpestr\w|pcmpistr\w|crc32\w?)$')
BMI1 = re.compile(r'(andn|blsr|blsi|blsmsk|bextr)$')
BMI2 = re.compile(r'(bzhi|pdep|pext|mulx|rorx|shlx|shrx|sarx)$')
EVEXONLY = re.compile(r'(vpternlog\w|vpcompress\w|vpexpand\w|vcompress\w+|vexpand\w+|vperm[it]2\w+|vpermb|vpermw|vpshld\w+|vpshrd\w+|valign\w|vpmovm2\w|vpmov[bwdq]2m|vptestn?m\w|v\w+(32|64)x[248]|vmovdqu(8|16|32|64)|vmovdqa(32|64)|vpandn?[dq]|vpx?or[dq]|vprol\w+|vpror\w+|vpsrav[wq]|vps[rl]lvw|vpmultishiftqb|vpsraq|vpabsq|vpmullq|vp(min|max)[su]q|vpbroadcastm\w+|vpopcnt\w|vdbpsadbw|vpconflict\w|vplzcnt\w)$')

def needs(m, ops):
    if m[0] == 'k' and '%k' in ops:
        return ['AVX512F'] + (['AVX512DQ'] if m.endswith('b') and m not in ('ksub',) else ['AVX512BW'] if m[-1] in 'dq' or 'unpck' in m else [])
    if m[0] == 'v' and m not in ('verr', 'verw', 'vmcall'):
        if m in ('vzeroupper', 'vzeroall'): return ['AVX']
        z, y = '%zmm' in ops, '%ymm' in ops
        evex = z or '%k' in ops or re.search(r'%[xy]mm(1[6-9]|2\d|3[01])\b', ops) or EVEXONLY.match(m) or '{1to' in ops
        out = []
        if evex:
            out = ['AVX512F', 'EVEX512' if z else 'AVX512VL']
            if re.match(r'vp(compress|expand)[bw]$|vpsh[lr]d', m): out.append('AVX512VBMI2')
            elif re.match(r'vpermb$|vperm[it]2b$|vpmultishiftqb$', m): out.append('AVX512VBMI')
            elif re.match(r'vp\w*[bw]$|vmovdqu(8|16)$|vpalignr$|vpmov[bw]2m|vpmovm2[bw]|vpack\w+|vpunpck\w(bw|wd)|vpmov[zs]xbw|vpmaddubsw|vpsadbw|vps[lr]ldq', m) and not re.match(r'vpand|vpx?or', m): out.append('AVX512BW')
            elif re.match(r'v\w+64x2$|vp?\w+32x8$|vpmullq', m): out.append('AVX512DQ')
        if 'gf2p8' in m: out.append('GFNI')
        if 'pclmul' in m: return out + (['VPCLMULQDQ'] if y or z else ['PCLMULQDQ'] if not evex else ['VPCLMULQDQ']) + ([] if evex else ['AVX'])
        if evex: return out
        if re.match(r'vfn?m(add|sub)', m): return out + ['FMA']
        if re.match(r'vpbroadcast|vpsllv|vpsrlv|vpsrav|vpblendd|vbroadcasti|vextracti|vinserti|vperm2i|vpermq|vpermd|vpmaskmov|vpgather|vgather', m): return out + ['AVX2']
        if y and m.startswith('vp') and not re.match(r'vpermil|vptest', m): return out + ['AVX2']
        if y and m in ('vmpsadbw', 'vmovntdqa'): return out + ['AVX2']
        return out + ['AVX']
    if m == 'lzcnt': return ['LZCNT']
    if m.startswith('popcnt'): return ['POPCNT']
    if BMI1.match(m): return ['BMI1']
    if BMI2.match(m): return ['BMI2']
    if m in ('adcx', 'adox'): return ['ADX']
    if m.startswith('movbe'): return ['MOVBE']
    if m.startswith('pclmul'): return ['PCLMULQDQ']
    if m.startswith('gf2p8'): return ['GFNI']
    if m in SSE3: return ['SSE3']
    if SSSE3.match(m): return ['SSSE3']
    if SSE42.match(m): return ['SSE42']
    if SSE41.match(m) and m != 'roundabout': return ['SSE41']
    if m.startswith('aes'): return ['AES']
    if m.startswith('sha'): return ['SHA'] if re.match(r'sha(1|256)', m) else []
    return []

def prepare(node, out_node, out_map):
    data = bytearray(open(node, 'rb').read())
    segs = [tuple(int(x, 16) for x in m.groups()) for m in re.finditer(r'LOAD\s+(0x\w+) (0x\w+) 0x\w+ (0x\w+)', subprocess.run(['readelf', '-lW', node], capture_output=True, text=True, check=True).stdout)]
    def off(v):
        for o, va, sz in segs:
            if va <= v < va + sz: return v - va + o
        raise ValueError(v)
    mp, patched = {}, 0
    for line in subprocess.run(['objdump', '-d', '--no-show-raw-insn', node], capture_output=True, text=True, check=True).stdout.splitlines():
        m = re.match(r'\s*([0-9a-f]+):\t(.*)$', line)
        if not m: continue
        a, t = int(m.group(1), 16), m.group(2).split('#')[0]
        w = t.split(None, 1)
        if w and w[0] in ('lock', 'rep', 'repz', 'repnz', 'data16', 'notrack', 'bnd', 'cs', 'ds', 'es') or (w and w[0].startswith('{')): w = (w[1] if len(w) > 1 else '').split(None, 1)
        if not w: continue
        mn, ops = w[0], w[1] if len(w) > 1 else ''
        if mn == 'cpuid': assert data[off(a):off(a) + 2] == b'\x0f\xa2'; data[off(a):off(a) + 2] = b'\x0f\x0b'; patched += 1
        elif mn == 'xgetbv': assert data[off(a):off(a) + 3] == b'\x0f\x01\xd0'; data[off(a):off(a) + 3] = b'\x0f\xb9\xc0'; patched += 1
        else:
            n = needs(mn, ops)
            if n: mp[a] = [data[off(a)], n]; data[off(a)] = 0xcc
    open(out_node, 'wb').write(data); os.chmod(out_node, 0o755)
    json.dump(mp, open(out_map, 'w'))
    return patched, len(mp)
