# Conformance driver for the values of the Ruby bindings.  The memory of the
# values is read by its address, independently of the wrappers under test.
require_relative 'rbreg'
require 'fiddle'
require 'base64'
require 'pp'

class Dangling < StandardError; end
class ValDriver < Driver
    NV = 4
    NH = 3
    INTS = [0, 1, -1, 2, 65, 127, 128, -128, -129, 255, 256, 32767, -32768, 32768, 65535, 65536, 2**31 - 1, 2**31, -2**31, -2**31 - 1,
            2**32 - 1, 2**32, 2**63 - 1, 2**63, -2**63, -2**63 - 1, 2**64 - 1, 2**64, 10**30]
    FLOATS = [0.0, 1.5, -2.75, 127.9, -0.5, 3.0e9, -3.0e9, 1.0e30, Float::NAN, Float::INFINITY, -Float::INFINITY, 1.0e-40, -0.0]
    STRS = ['', 'a', 'ab', 'xyz', "\u00e9", "h\u00e9llo", 'A' * 3, 'B' * 20, "a\0b", '/', "\u20ac"]
    Loc = Struct.new(:v, :p, :o, :t, :addr, :chain)

    def initialize
        super
        clear_values
    end
    def clear_values
        @vals = Array.new(NV + 1)
        @regof = Array.new(NV + 1)
        @lastv = Array.new(NV + 1)
        @handles = Array.new(NH + 1)
        @lasth = Array.new(NH + 1)
    end

    # ---------------------------------------------------------------- memory
    def mem(addr, n) n == 0 ? [] : Fiddle::Pointer.new(addr)[0, n].bytes end
    def words(addr, n) mem(addr, 8 * n).pack('C*').unpack('Q<*') end
    def string?(t) t.container_kind == '/std/string' end
    def elements(t, addr)
        if string?(t)
            b, n = words(addr, 2)
            (0...n).map { |i| b + i }
        else
            b, e = words(addr, 2)
            s = t.deference.size
            (0...((e - b) / s)).map { |i| b + i * s }
        end
    end
    # yields the containers at their offset in a value
    def containers(t, off, &block)
        if t < ContainerType then yield(off, t)
        elsif t < ArrayType then t.length.times { |i| containers(t.deference, off + i * t.deference.size, &block) }
        elsif t < CompoundType then t.get_fields.each { |_, o, ft, _| containers(ft, off + o, &block) }
        end
    end
    def obs(t, addr)
        b = mem(addr, t.size)
        c = []
        containers(t, 0) do |o, ct|
            ct.size.times { |i| b[o + i] = -1 }
            c << [o, elements(ct, addr + o).map { |x| obs(ct.deference, x) }]
        end
        { b: b, c: c }
    end
    def walk(v, t, addr, p, o, chain, out)
        out << Loc.new(v, p, o, t, addr, chain)
        if t < CompoundType then t.get_fields.each { |n, off, ft, _| walk(v, ft, addr + off, p, o + off, chain + [n], out) }
        elsif t < ArrayType then t.length.times { |i| walk(v, t.deference, addr + i * t.deference.size, p, o + i * t.deference.size, chain + [i], out) }
        elsif t < ContainerType && !string?(t)
            elements(t, addr).each_with_index { |x, i| walk(v, t.deference, x, p + [[o, i]], 0, chain + [i], out) if i < 30 }
        end
        out
    end
    def locs(v) @vals[v] ? walk(v, @vals[v].class, @vals[v].zone_address, [], 0, [], []) : [] end
    def all_locs() (1..NV).flat_map { |v| locs(v) } end
    # the wrapper of a location
    def wrap(l)
        w = l.chain.inject(@vals[l.v]) { |x, k| x.raw_get(k) }
        raise Dangling, "#{l.chain}" if w.zone_address != l.addr || !w.class.equal?(l.t) || w.invalidated?
        w
    end
    def loc_json(l) { v: l.v, p: l.p, o: l.o, t: l.t.name } end
    def plain?(t)
        return false if t < ContainerType || t < PointerType
        return plain?(t.deference) if t < ArrayType
        return t.fields.all? { |_, ft| plain?(ft) } if t < CompoundType
        true
    end
    def pick(a, like = nil, sub = false)
        if a['p']
            x = locs(a['v']).find { |l| l.p == a['p'] && l.o == a['o'] && l.t.name == a['t'] }
            raise NoRef if x.nil?
            return x
        end
        ls = a['v'] == 0 ? [] : among(locs(a['v']), a, like, sub)
        ls = among(all_locs, a, like, sub) if ls.empty?
        ls = all_locs.find_all { |l| !l.chain.empty? } if ls.empty? && sub && a['want'] == 'text'
        raise NoRef if ls.empty?
        ls[a['n'] % ls.size]
    end
    def among(ls, a, like, sub)
        ls = ls.find_all { |l| !l.chain.empty? } if sub
        case a['want']
             when 'any' then ls
             when 'root' then ls.find_all { |l| l.chain.empty? }
             when 'sub' then ls.find_all { |l| !l.chain.empty? }
             when 'leaf' then ls.find_all { |l| l.t < NumericType || l.t < EnumType }
             when 'container' then ls.find_all { |l| l.t < ContainerType }
             when 'vector' then ls.find_all { |l| l.t < ContainerType && !string?(l.t) }
             when 'numvec' then ls.find_all { |l| l.t < ContainerType && !string?(l.t) && l.t.deference < NumericType }
             when 'compound' then ls.find_all { |l| l.t < CompoundType }
             when 'text' then ls.find_all { |l| !l.chain.empty? && l.chain[-1].kind_of?(String) && text?(l.t) }
             when 'plain' then ls.find_all { |l| plain?(l.t) }
             when 'like' then x = ls.find_all { |l| l.t.equal?(like.t) && l.addr != like.addr }; x.empty? ? ls.find_all { |l| l.t.casts_to?(like.t) } : x
             when 'elem' then ls.find_all { |l| l.t.equal?(like.t.deference) }
             else raise DriverError, "want #{a['want']}"
        end
    end
    def text?(t) t < ContainerType && string?(t) || t < ArrayType && t.deference.equal?(t.registry.get(CHAR_T.name)) rescue false end
    # character arrays are exactly what their string is
    def canonical?(t, addr)
        if t < ArrayType && text?(t)
            b = mem(addr, t.size)
            k = b.index(0)
            !k.nil? && b[k..-1].all? { |x| x == 0 }
        elsif t < ArrayType then (0...t.length).all? { |i| canonical?(t.deference, addr + i * t.deference.size) }
        elsif t < CompoundType then t.get_fields.all? { |_, o, ft, _| canonical?(ft, addr + o) }
        elsif t < ContainerType && !string?(t) then elements(t, addr).all? { |x| canonical?(t.deference, x) }
        else true
        end
    end

    # ------------------------------------------------------------------ data
    def magnitude(x)
        x = x.abs
        b = []
        while x > 0
            b << (x & 255)
            x >>= 8
        end
        b
    end
    def enc_data(x)
        case x
        when nil then { k: 'n' }
        when true, false then { k: 'b', v: x }
        when Integer
            f = x.to_f
            { k: 'i', neg: x < 0, m: magnitude(x), bad: false, f4: [f].pack('e').bytes, f8: [f].pack('E').bytes }
        when Float
            bad = x.nan? || x.infinite? ? true : false
            { k: 'f', neg: x < 0, m: bad ? [] : magnitude(x.truncate), bad: bad, f4: [x].pack('e').bytes, f8: [x].pack('E').bytes }
        when String then { k: 's', b: x.bytes, n: x.size, ord: x.empty? || !x.valid_encoding? ? 0 : x[0].ord, s: x.ascii_only? && !x.include?("\0") ? x : '' }
        when Symbol then { k: 'y', s: x.to_s }
        when Array then { k: 'a', v: x.map { |e| enc_data(e) } }
        when Hash then { k: 'h', v: x.map { |k, e| [k.to_s, enc_data(e)] } }
        when Type
            l = @given.find { |w, _| w.equal?(x) }[1]
            { k: 'w', a: loc_json(l) }
        end
    end
    # a wrapper of a value outside of the root that is modified
    def wrapper(rng, t, out_of)
        ls = all_locs.find_all { |l| l.v != out_of && (l.t.equal?(t) || rng.rand < 0.05) }
        ls = all_locs.find_all { |l| l.v != out_of && l.t.casts_to?(t) } if ls.empty?
        return nil if ls.empty?
        l = ls[rng.rand(ls.size)]
        w = wrap(l)
        @given << [w, l]
        w
    end
    def odd(rng)
        return [nil, true, 7, 2.5, 'q', :A, 'none'][rng.rand(7)] if @full
        [nil, true, 7, 2.5, 'q', :A, [], {}, [1, 2], { 'f0' => 1 }, { 'none' => 1 }, 'none'][rng.rand(12)]
    end
    def data(t, rng, out_of, depth = 0)
        return odd(rng) if rng.rand < (depth == 0 ? 0.1 : 0.03)
        if rng.rand < 0.2 && (w = wrapper(rng, t, out_of))
            return w
        end
        if t < NumericType
            return rng.rand < 0.5 if t.name == '/bool' && rng.rand < 0.7
            return STRS[rng.rand(STRS.size)] if t.name == CHAR_T.name && rng.rand < 0.3
            return rng.rand(-100..100) if rng.rand < 0.5
            if rng.rand < 0.6
                m = t.integer? ? 2**(8 * t.size) : 2**64
                return t.integer? && !t.unsigned? ? rng.rand((-m / 2)...(m / 2)) : rng.rand(m)
            end
            rng.rand < 0.6 ? INTS[rng.rand(INTS.size)] : FLOATS[rng.rand(FLOATS.size)]
        elsif t < EnumType
            ks = t.keys.to_a
            return odd(rng) if ks.empty?
            k, v = ks[rng.rand(ks.size)]
            [k.to_sym, k, v, v, k.to_sym, 77][rng.rand(6)]
        elsif t < ArrayType
            if text?(t) && rng.rand < 0.7
                return rng.rand < 0.6 ? 'x' * rng.rand(0..t.length) : STRS[rng.rand(STRS.size)]
            end
            n = t.length + (rng.rand < 0.08 ? rng.rand(-1..1) : 0)
            (0...[n, 0].max).map { data(t.deference, rng, out_of, depth + 1) }
        elsif t < ContainerType
            return STRS[rng.rand(STRS.size)] if string?(t) && rng.rand < 0.7
            (0...rng.rand(depth > 1 ? 2 : 4)).map { data(t.deference, rng, out_of, depth + 1) }
        elsif t < CompoundType
            fs = t.fields
            if rng.rand < 0.5
                n = fs.size + (rng.rand < 0.1 ? 1 : 0) - (rng.rand < 0.3 && !@full ? 1 : 0)
                return (0...[n, 0].max).map { |i| fs[i] ? data(fs[i][1], rng, out_of, depth + 1) : 1 }
            end
            sym = rng.rand < 0.5
            h = {}
            fs.shuffle(random: rng).each { |n, ft| h[sym ? n.to_sym : n] = data(ft, rng, out_of, depth + 1) if @full || rng.rand < 0.8 }
            h[:none] = 1 if rng.rand < 0.04
            h
        else odd(rng)
        end
    end
    def dec_data(d)
        case d['k']
        when 'n' then nil
        when 'b' then d['v']
        when 'i' then d['m'].reverse.inject(0) { |x, b| x * 256 + b } * (d['neg'] ? -1 : 1)
        when 'f' then d['f8'].pack('C*').unpack1('E')
        when 's' then d['b'].pack('C*').force_encoding('utf-8')
        when 'y' then d['s'].to_sym
        when 'a' then d['v'].map { |x| dec_data(x) }
        when 'h' then d['v'].map { |k, x| [k, dec_data(x)] }.to_h
        when 'w' then wrap(pick(d['a']))
        end
    end
    def given(c, t, out_of)
        return dec_data(c['d']) if c['d']
        @given = []
        # what is not given is not defined: it cannot be compared
        @full = c['op'] == 'verase'
        d = data(t, Random.new(c['seed']), out_of)
        @full = false
        d = 1 if d.nil? && c['how'] == 'method'
        c['d'] = enc_data(d)
        d
    end

    # --------------------------------------------------------------- results
    # what Ruby sees of the value at an address
    def enc(x, addr = nil)
        case x
        when nil then ['n']
        when true, false then ['b', x]
        when Integer then ['i', x < 0, magnitude(x)]
        when Float then x.nan? ? ['nan'] : ['f', [x].pack('E').bytes]
        when String then ['s', x.bytes]
        when Symbol then ['y', x.to_s]
        when Hash
            return ['p', x[:pack_code].to_s, x[:size], Base64.strict_decode64(x[:data]).bytes] if x.has_key?(:pack_code)
            ['h', x.map { |k, v| [k, enc(v)] }]
        when Array then ['a', x.map { |v| enc(v) }]
        when Type
            raise Dangling if x.invalidated? || addr && x.zone_address != addr
            ['w', x.class.name]
        else ["!#{x.class}"]
        end
    end
    def agree(what, *vs)
        raise DriverError, "#{what}: #{vs.inspect}"[0, 300] if vs.uniq.size != 1
        vs[0]
    end
    def kids(l, w)
        t = l.t
        if t < CompoundType
            each = w.each_field.to_a
            raw = w.raw_each_field.to_a
            raise DriverError, 'each_field' if each.map(&:first) != t.fields.map(&:first) || raw.map(&:first) != each.map(&:first)
            t.get_fields.each_with_index.map do |(n, off, ft, _), i|
                a = l.addr + off
                r = [w.get(n), w[n], w[n.to_sym], w.get_field(n), each[i][1]]
                r << w.send(n) if !t.converted_fields.include?(n)
                [w.raw_get(n), w.send("raw_#{n}"), raw[i][1], w.raw_get_field(n.to_sym)].each { |x| raise Dangling if x.zone_address != a || !x.class.equal?(ft) }
                agree(n, *r.map { |x| enc(x, a) })
            end
        elsif t < ArrayType
            es = w.each.to_a
            w.raw_each.each_with_index { |x, i| raise Dangling if x.zone_address != l.addr + i * t.deference.size || !x.class.equal?(t.deference) }
            raise DriverError, 'size' if es.size != t.length || w.size != es.size || w.raw_each.to_a.size != es.size
            k = es.size / 2
            ranges = [w[0, es.size], w[0, k] + w[k, es.size - k], es.each_index.map { |i| w[i, 1][0] }]
            raise DriverError, 'range' if ranges.any? { |x| x.size != es.size } || w[k, 0] != []
            es.each_with_index.map { |e, i| a = l.addr + i * t.deference.size; agree(i, enc(e, a), enc(w[i], a), *ranges.map { |x| enc(x[i], a) }) }
        elsif t < ContainerType
            as = elements(t, l.addr)
            es = w.each.to_a
            raise DriverError, 'size' if w.size != as.size || es.size != as.size || w.length != as.size || w.empty? != as.empty?
            # (it keeps the wrappers: not always)
            w.raw_each.each_with_index { |x, i| raise Dangling if x.zone_address != as[i] || !x.class.equal?(t.deference) } if as.size.odd? && !string?(t)
            if string?(t) then es.map { |e| enc(e) }
            else es.each_with_index.map { |e, i| agree(i, enc(e, as[i]), enc(w[i], as[i]), enc(w.get(i), as[i])) }
            end
        else []
        end
    end
    # what is only for people has to be there, and to leave the value alone
    def shown(w)
        x = w.to_ruby
        raise DriverError, 'to_s' if !(String === w.to_s) || !(String === w.raw_to_s)
        raise DriverError, '== object' if w == Object.new
        raise DriverError, '== its Ruby value' if !(Type === x) && enc(x).flatten.none? { |e| e == 'nan' } && !(w == x)
        begin raise DriverError, 'inspect' if !(String === w.inspect)
        rescue NotImplementedError
        end
        raise DriverError, 'pretty_print' if PP.pp(w, +'').empty?
    end
    def rooted(v)
        yield
    ensure
        @vals[v].invalidate_changes_from_converted_types if @vals[v]
    end
    def store(v, w, r)
        raise DriverError, 'not a value' if !w.kind_of?(Type)
        @vals[v] = w
        @regof[v] = r
        ''
    end
    def opts(c) { accept_pointers: c['ptr'] ? true : false, accept_opaques: c['opq'] ? true : false, merge_skip_copy: !c['unmerged'] } end
    def converted(w)
        w.class.converted_fields.each do |n|
            x = w.send(n)
            raise DriverError, "method #{n}" if !w.send(n).equal?(x)
            deep(x)
        end
    end
    def deep(x)
        case x
        when Array then x.each { |y| deep(y) }
        when CompoundType then converted(x)
        end
    end
    def setters(c, l)
        raise NoRef if l.chain.empty?
        parent = wrap(Loc.new(l.v, nil, nil, parent_type(l), parent_addr(l), l.chain[0..-2]))
        key = l.chain[-1]
        c['pk'] = parent.kind_of?(CompoundType) ? 'field' : parent.kind_of?(ArrayType) ? 'array' : 'vector'
        [parent, key]
    end
    def parent_loc(l) locs(l.v).find { |x| x.chain == l.chain[0..-2] } end
    def parent_type(l) parent_loc(l).t end
    def parent_addr(l) parent_loc(l).addr end

    # ------------------------------------------------------------ operations
    def exec(c)
        return super if !c['op'].start_with?('v')
        if c['op'] == 'vnew'
            r = @regs[c['r'] - 1]
            t = need(r, c['t'])
            raise NoRef if !usable(t)
            w = case c['how']
                when 'new' then t.new
                when 'zero' then t.zero
                when 'init'
                    d = given(c, t, nil)
                    raise NoRef if d.kind_of?(Type)
                    t.new(d)
                when 'wrap'
                    c['in'] ||= begin pick(c['b']).then { |l| wrap(l).to_byte_array.bytes }
                                rescue ArgumentError then raise NoRef
                                end
                    damage(c, t)
                    s = c['in'].pack('C*')
                    c['wrap'] ? t.wrap(s) : t.from_buffer(s)
                else raise DriverError, 'how'
                end
            return store(c['v'], w, c['r'])
        end
        if c['op'] == 'vdel'
            @vals[c['v']] = nil
            @dels = (@dels || 0) + 1
            GC.start if @dels % 20 == 0
            return ''
        end
        b = pick(c['b']) if c['b'] && c['op'] != 'vload'
        l = pick(c['a'], b, c['op'] == 'vset')
        c['b'] = loc_json(b) if b
        b2 = pick(c['b'], l) if c['op'] == 'vload' && c['b']
        c['a'] = loc_json(l)
        rooted(l.v) { value_op(c, l, b, b2) }
    end
    def usable(t) t.size > 0 && t.size <= 400 && !(t < NullType) end
    def damage(c, t)
        s = c['in']
        s = s[0...(s.size * c.delete('cut') / 100)] if c['cut']
        s += [1] * c.delete('ext') if c['ext']
        if c['flip'] && !s.empty?
            s = s.dup
            s[c.delete('flip') % s.size] ^= 1
        end
        s = s.dup
        bound(t, s, 0, c['unmerged'])
        c['in'] = s
    end
    # sizes of containers are kept small: they are allocated before they are read
    def bound(t, s, pos, unmerged)
        if t < ContainerType
            return pos + 8 if pos + 8 > s.size
            n = s[pos, 8].pack('C*').unpack('Q<')[0]
            if n > 200
                n = n % 256 % 5
                s[pos, 8] = [n].pack('Q<').bytes
            end
            n.times.inject(pos + 8) { |p, _| bound(t.deference, s, p, unmerged) }
        elsif t < ArrayType then t.length.times.inject(pos) { |p, _| bound(t.deference, s, p, unmerged) }
        elsif t < CompoundType
            cur = 0
            t.get_fields.each do |_, o, ft, _|
                pos += o - cur if !unmerged
                pos = bound(ft, s, pos, unmerged)
                cur = o + ft.size
            end
            unmerged ? pos : pos + t.size - cur
        elsif t < OpaqueType then unmerged ? pos : pos + t.size
        else pos + t.size
        end
    end
    def value_op(c, l, b, b2)
        t = l.t
        case c['op']
        when 'vset'
            parent, key = setters(c, l)
            key = key.to_sym if c['sym'] && key.kind_of?(String)
            c['bad'] = false if c['pk'] == 'field' && %w{method mut}.include?(c['how'])
            key = c['pk'] == 'field' ? 'none' : [-1, 1000, parent.size][c['seed'] % 3] if c['bad']
            d = given(c, t, l.v)
            case c['how']
            when 'set' then c['pk'] == 'array' ? parent[key] = d : parent.set(key, d)
            when '[]=' then parent[key] = d
            when 'method'
                if c['pk'] == 'field'
                    parent.send("#{key}=", d)
                    @vals[l.v].apply_changes_from_converted_types
                else parent[key] = d
                end
            when 'raw'
                if c['pk'] == 'field' && c['seed'] % 2 == 0 && !c['bad'] then parent.send("raw_#{key}=", d)
                else parent.raw_set(key, d)
                end
            else raise DriverError, 'how'
            end
            ''
        when 'vmut'
            parent, key = setters(c, l)
            raise NoRef if !canonical?(t, l.addr)
            x = parent.send(key)
            raise DriverError, 'not a string' if !x.kind_of?(String)
            case c['d'] ? -1 : c['seed'] % 4
            when -1 then x.replace(dec_data(c['d']))
            when 0 then x << 'k'
            when 1 then x.replace('mn')
            when 2 then x.clear
            else x.replace('Q' * x.bytesize)
            end
            c['d'] ||= enc_data(x)
            @vals[l.v].apply_changes_from_converted_types
            ''
        when 'vmeth'
            root = @vals[l.v]
            raise NoRef if root.marshalling_size.nil? || !canonical?(root.class, root.zone_address)
            deep(wrap(l))
            # what is converted within arrays and containers
            deep(l.t < CompoundType ? nil : wrap(l).to_ruby)
            root.apply_changes_from_converted_types
            ''
        when 'vget'
            w = wrap(l)
            r = [enc(w.to_ruby, l.addr), kids(l, w)]
            shown(wrap(l)) if canonical?(@vals[l.v].class, @vals[l.v].zone_address)
            r
        when 'vfind'
            below = walk(l.v, t, l.addr, l.p, l.o, [], [])
            raise NoRef if below.any? { |x| x.t < ContainerType && elements(x.t, x.addr).size > 30 }
            ts = below.map { |x| x.t }.uniq.find_all { |x| x.size > 0 && x.name != CHAR_T.name }.sort_by(&:name)
            raise NoRef if ts.empty?
            c['t'] ||= ts[c.delete('seed') % ts.size].name
            ft = t.registry.get(c['t'])
            found = Accessor.find_in_type(t) { |x| x.equal?(ft) }.to_enum(:each, wrap(l)).to_a
            raise DriverError, 'not values of the type' if found.any? { |x| !x.class.equal?(ft) }
            raise DriverError, 'found twice' if found.map(&:zone_address).uniq.size != found.size
            found.map { |x| below.find { |y| y.addr == x.zone_address && y.t.equal?(ft) }.then { |y| y ? [y.p, y.o] : ['!'] } }
        when 'vptr'
            raise NoRef if !t.registry.include?(t.name + '*')
            pt = t.registry.get(t.name + '*')
            w = wrap(l)
            x = w.to_ptr
            raise DriverError, 'to_ptr' if !t.to_ptr.equal?(pt) || !x.class.equal?(pt) || x.null? || words(x.zone_address, 1) != [l.addr]
            raise DriverError, 'deference' if !x.deference.equal?(w)
            y = pt.from_buffer([l.addr].pack('Q'), accept_pointers: true)
            raise DriverError, 'deference of an address' if y.null? || y.deference.zone_address != l.addr || !y.deference.class.equal?(t)
            z = pt.create_null
            raise DriverError, 'null' if !z.null? || words(z.zone_address, 1) != [0] || !z.to_ruby.nil?
            begin z.deference
                raise DriverError, 'deference of null'
            rescue ArgumentError
            end
            'same'
        when 'vsimple'
            o = {}
            o[:special_float_values] = c['sf'].to_sym if c['sf']
            o[:pack_simple_arrays] = true if c['pack']
            enc(c['json'] ? wrap(l).to_json_value(o) : wrap(l).to_simple_value(o))
        when 'vdump' then wrap(l).to_byte_array(opts(c)).bytes
        when 'vsize' then s = wrap(l).marshalling_size; s.nil? ? -1 : s
        when 'vload'
            if b2
                begin c['in'] = wrap(b2).to_byte_array(opts(c)).bytes
                rescue ArgumentError then raise NoRef
                end
                c.delete('b')
            end
            damage(c, t)
            w = wrap(l)
            x = w.from_buffer(c['in'].pack('C*'), opts(c))
            raise DriverError, 'from_buffer' if !x.equal?(w)
            ''
        when 'vcopy' then w = wrap(l); raise DriverError, 'copy' if !Typelib.copy(w, wrap(b)).equal?(w); ''
        when 'vdup' then w = wrap(l); store(c['v'], c['seed'] % 2 == 0 ? w.dup : w.clone, @regof[l.v])
        when 'vcmp' then wrap(l) == wrap(b)
        when 'vcast'
            t2 = need(@regs[c['r2'] - 1], c['t2'])
            w = wrap(l).cast(t2)
            w.zone_address == l.addr && w.class.equal?(t2) ? 'same' : '!'
        when 'vzero' then w = wrap(l); raise DriverError, 'zero!' if !w.zero!.equal?(w); ''
        when 'veswap' then w = wrap(l); raise DriverError, 'swap' if !w.endian_swap!.equal?(w); ''
        when 'vcswap' then store(c['v'], wrap(l).endian_swap, @regof[l.v])
        when 'vcsv' then [wrap(l).to_csv(c['sep']).bytes, c['sep'] == ' ' ? l.t.to_csv(c['name']).bytes : l.t.to_csv(c['name'], c['sep']).bytes]
        when 'vpush'
            w = wrap(l)
            @given = []
            rng = Random.new(c['seed'])
            if c['how'] == 'text'
                s = STRS[rng.rand(STRS.size)]
                c['how'] = 'one' if !string?(t)
            end
            ds = c['ds'] ? c['ds'].map { |d| dec_data(d) } : c['how'] == 'text' ? [s] : (0...(c['how'] == 'one' ? 1 : c['count'])).map { data(t.deference, rng, l.v) }
            c['ds'] ||= ds.map { |d| enc_data(d) }
            x = case c['how']
                when 'one' then w << ds[0]
                when 'push' then w.push(*ds)
                when 'text' then w.concat(s)
                else w.concat(ds)
                end
            raise DriverError, 'push' if !x.equal?(w)
            ''
        when 'verase' then w = wrap(l); w.erase(given(c, t.deference, l.v))
        when 'vdelif'
            seen = []
            i = -1
            wrap(l).delete_if { |e| seen << enc(e); i += 1; i % c['mod'] == c['rem'] }
            seen
        when 'vclear' then wrap(l).clear; ''
        when 'vslice' then store(c['v'], wrap(l)[c['i'], c['k']], @regof[l.v])
        when 'vofsize' then d = given(c, t.deference, nil); store(c['v'], c['k'] == 0 && c['plain'] ? t.new : t.of_size(c['k'], d), @regof[l.v])
        when 'vmemcpy'
            s = (c['bytes'] * t.deference.size)[0, c['bytes'].size / t.deference.size * t.deference.size].pack('C*')
            s += 'x' if c['odd'] && t.deference.size > 1
            c['in'] = s.bytes
            wrap(l).raw_memcpy(Fiddle::Pointer[s].to_i, s.bytesize)
            ''
        when 'vhold' then raise NoRef if t.size == 0; @handles[c['h']] = [l.v, wrap(l)]; ''
        else raise DriverError, "unknown op #{c['op']}"
        end
    end

    # ------------------------------------------------------------------ step
    FORBIDDEN = [:to_byte_array, :to_ruby, :marshalling_size, :zero!, :endian_swap!, :to_memory_ptr, :dup, :to_csv]
    def handle(h)
        v, w = @handles[h]
        return [] if w.nil?
        if @vals[v].nil?
            @handles[h] = nil
            return []
        end
        if w.invalidated?
            FORBIDDEN.each do |m|
                begin w.send(m)
                    return ["!#{m}"]
                rescue TypeError
                end
            end
            return ['inv']
        end
        l = locs(v).find { |x| x.addr == w.zone_address && x.t.equal?(w.class) }
        l.nil? ? ['!dangling'] : ['at', loc_json(l)]
    end
    def step(c)
        if c['op'] == 'reset'
            clear_values
        end
        if !c['op'].start_with?('v')
            ev = super
            return ev.merge('vs' => changed, 'hs' => handles)
        end
        out = ''
        old = @vals.dup
        begin
            out = exec(c)
            res = 'ok'
        rescue DriverError => e
            res = "!#{e.message}"
        rescue Dangling => e
            res = "!dangling #{e.message}"
            STDERR.puts e.full_message(highlight: false) if ENV['VERBOSE']
        rescue StandardError, NotImplementedError => e
            res = resname(e)
            STDERR.puts e.full_message(highlight: false) if ENV['VERBOSE']
        end
        # a new value, or no value: what was held in the old one is gone
        (1..NV).each { |v| (1..NH).each { |h| @handles[h] = nil if @handles[h] && @handles[h][0] == v } if !old[v].equal?(@vals[v]) }
        { 'res' => res, 'out' => out, 'np' => [], 'st' => [[], [], []], 'vs' => changed, 'hs' => handles }
    end
    def changed
        (1..NV).map do |v|
            w = @vals[v]
            o = w ? [@regof[v], w.class.name, obs(w.class, w.zone_address)] : []
            k = JSON.generate(o)
            next if k == (@lastv[v] || '[]')
            @lastv[v] = k
            [v, o]
        end.compact
    end
    def handles
        (1..NH).map { |h| handle(h) }
    end
end

if $0 == __FILE__
    d = ValDriver.new
    run_driver(ARGV[0], ARGV[1]) { |c| d.step(c) }
end
