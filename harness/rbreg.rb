# Conformance driver for the registry of the Ruby bindings.
require_relative 'rbcommon'
include Typelib

CATS = { NumericType => 'numeric', CompoundType => 'compound', PointerType => 'pointer', ArrayType => 'array', EnumType => 'enum',
         ContainerType => 'container', OpaqueType => 'opaque', NullType => 'null' }

class Driver
    NREG = 3
    PARTIAL = %w{merge addt tlbload tlbraw stdtypes}
    def initialize
        @regs = Array.new(NREG) { Registry.new }
        @last = Array.new(NREG)
        @probes, @known = Set.new, Set.new
    end

    # ------------------------------------------------------------ projection
    def names_of(types) types.map { |t| t.name }.sort end
    def meta(m)
        r = m.keys.map { |k| [k, m.get(k)] }
        raise DriverError, 'metadata: each' if m.each.to_a != r || r.any? { |k, v| m[k] != v || !m.include?(k) } || m.include?('!none')
        r
    end
    # accessors that have to agree: the first that does not is reported
    def disagreement(reg, t)
        n = t.name
        return '!get' if !reg.get(n).equal?(t) || !reg.build(n).equal?(t)
        return '!include' if !reg.include?(n) || !reg.includes?(n)
        return '!registry' if !t.registry.equal?(reg)
        return '!superclass' if (t <= IndirectType ? true : false) != [ArrayType, PointerType, ContainerType].include?(t.superclass) || !(t < Type)
        return '!null' if t.null? != (t.superclass == NullType) || t.opaque? != (t.superclass == OpaqueType)
        return '!==' if !(t == t) || !t.eql?(t) || t == Type || t == n || t == Class
        return '!to_s' if t.to_s != "#<#{t.superclass.name}: #{n}>" || t.inspect != t.to_s
        return '!is_a' if !t.is_a?(n) || t < CompoundType && !t.empty? && !t.is_a?(t.fields[0][1].name) || !t.is_a?(t.superclass) || !t.is_a?(/#{Regexp.escape(n)}/) || t.is_a?(n + 'x') && t.superclass != CompoundType
        return '!names' if t.namespace + t.basename != n || t.full_name != n || t.namespace('::') != t.namespace.gsub('/', '::') ||
                           t.basename('::') != t.basename.gsub('/', '::') || t.namespace('/', true) != t.namespace[1..-1] || t.full_name('.', true) != n[1..-1].gsub('/', '.')
        return '!dependencies' if t.dependencies != t.direct_dependencies || t.do_dependencies.to_set != t.direct_dependencies.to_set
        h = t.to_h(layout_info: true)
        return '!to_h' if h[:name] != n || h[:class] != t.superclass.name || h[:size] != t.size || t.to_h[:name] != n
        if t < CompoundType
            f = t.get_fields
            return '!fields' if t.fields != f.map { |x| [x[0], x[2]] } || t.each_field.to_a != t.fields || t.empty? != f.empty?
            f.each do |fn, off, ft, _|
                first = f.find { |x| x[0] == fn }
                last = f.reverse.find { |x| x[0] == fn }
                return '!field' if !t[fn].equal?(last[2]) || !t[fn.to_sym].equal?(last[2]) || !t.has_field?(fn) || !t.has_field?(fn.to_sym) || t.offset_of(fn) != first[1]
                return '!field metadata' if t.field_metadata[fn].keys != last[3].keys || last[3].keys.any? { |k| t.field_metadata[fn].get(k) != last[3].get(k) }
            end
            return '!has_field' if t.has_field?('!none')
            return '!to_h fields' if h[:fields].map { |x| [x[:name], x[:type][:name], x[:offset]] } != f.map { |x| [x[0], x[2].name, t.offset_of(x[0])] }
            r = t.to_h(recursive: true)[:fields]
            return '!to_h recursive' if r.map { |x| x[:type] } != f.map { |x| x[2].to_h(recursive: true) }
        elsif t < EnumType
            k = t.keys
            return '!enum' if k.any? { |s, v| t.value_of(s) != v || k[t.name_of(v)] != v } || h[:values].map { |x| [x[:name], x[:value]] } != k.to_a
        elsif t < NumericType
            return '!numeric' if h[:integer] != t.integer? || (t.integer? && h[:unsigned] != t.unsigned?)
            exp = { 1 => 'C', 2 => 'S<', 4 => 'L<', 8 => 'Q<' }[t.size]
            exp = t.integer? ? (t.unsigned? ? exp : exp && exp.downcase) : { 4 => 'e', 8 => 'E' }[t.size]
            return '!pack_code' if t.pack_code != exp
        elsif t < ArrayType
            return '!array' if h[:length] != t.length || h[:element] != t.deference.to_h_minimal(layout_info: true) || t[0] != t.deference
        elsif t < ContainerType
            return '!container' if h[:element] != t.deference.to_h_minimal(layout_info: true) || t.natural_size != { '/std/vector' => 24, '/std/string' => 32 }[t.container_kind] ||
                                   t.random_access? != (t.container_kind == '/std/vector')
        end
        n
    end
    def type(reg, t, all)
        num = on = kind = ''
        dim, fields, vals = 0, [], []
        cat = CATS[t.superclass] || '?'
        case cat
        when 'numeric' then num = t.integer? ? (t.unsigned? ? 'uint' : 'sint') : 'float'
        when 'array' then on, dim = t.deference, t.length
        when 'pointer' then on = t.deference
        when 'container' then on, kind = t.deference, t.container_kind
        when 'enum' then vals = t.keys.to_a
        when 'compound' then fields = t.get_fields.map { |n, off, ft, m| { n: n, t: ref(reg, ft), off: off, m: meta(m) } }
        end
        on = ref(reg, on) if on != ''
        rd = t.recursive_dependencies
        contained = all.size <= 24 ? all.find_all { |x| t.contains?(x) } : [t, *rd]
        { n: t.name, self: disagreement(reg, t), cat: cat, size: t.size, num: num, on: on, dim: dim, kind: kind, fields: fields, vals: vals,
          meta: meta(t.metadata), deps: t.direct_dependencies.map { |x| ref(reg, x) }, rdeps: names_of(rd), con: names_of(contained),
          src: reg.source_id_of(t) || '', split: t.split_typename }
    end
    def ref(reg, t) reg.include?(t.name) && reg.get(t.name).equal?(t) ? t.name : '!' + t.name end
    def state(reg)
        all = reg.each.to_a
        names = reg.each(with_aliases: true).map { |n, t| [n, ref(reg, t)] }
        raise DriverError, 'each: an alias' if all.map(&:name) != names.find_all { |n, t| n == t }.map(&:first)
        q = @probes.map { |p| reg.include?(p) ? [p, reg.get(p).name] : nil }.compact
        { size: reg.size, names: names, types: all.map { |t| type(reg, t, all) }, q: q }
    end
    def note(n)
        return if n.empty?
        @probes << n
        lvl = 0
        n.each_char.with_index do |c, i|
            lvl += 1 if c == '<'
            lvl -= 1 if c == '>'
            @probes << n[(i + 1)..-1] if c == '/' && lvl == 0 && i + 1 < n.size
        end
    end

    # ------------------------------------------------------------- documents
    def esc(s) s.gsub('&', '&amp;').gsub('<', '&lt;').gsub('>', '&gt;').gsub('"', '&quot;').gsub(/[\t\n\r]/) { |x| "&##{x.ord};" } end
    def meta_xml(m)
        (m || []).map do |k, vs|
            vs.empty? ? "<metadata key=\"#{esc(k)}\"/>" : vs.map { |v| "<metadata key=\"#{esc(k)}\"><![CDATA[#{v.gsub(']]>', ']]]]><![CDATA[>').gsub("\r", ']]>&#13;<![CDATA[')}]]></metadata>" }.join
        end.join
    end
    def doc_xml(doc, root = 'typelib')
        doc.map do |n|
            a = %w{name source_id size category of kind source dimension}.map { |k| n[k] && (n[k] != '' || k == 'name') ? " #{k}=\"#{esc(n[k])}\"" : '' }.join
            f = (n['fields'] || []).map { |x| '<field' + { 'n' => 'name', 't' => 'type', 'off' => 'offset' }.map { |k, v| x[k] ? " #{v}=\"#{esc(x[k])}\"" : '' }.join + ">#{meta_xml(x['m'])}</field>" }.join
            v = (n['vals'] || []).map { |s, i| "<value symbol=\"#{esc(s)}\" value=\"#{i}\"/>" }.join
            cm = n['cm'] ? "<!-- <#{n['k']}> -->" : ''
            "#{cm}<#{n['k']}#{a}>#{cm}#{f}#{v}#{meta_xml(n['meta'])}#{cm}</#{n['k']}>\n"
        end.join.then { |x| "<?xml version=\"1.0\"?>\n<#{root}>\n#{x}</#{root}>\n" }
    end
    def file(text)
        @file = (@file || 0) + 1
        path = File.join(ENV['VERIF_SCRATCH'], "t#{@file}.tlb")
        File.write(path, text)
        yield path
    ensure
        File.delete(path) if File.exist?(path)
    end

    # ------------------------------------------------------------ operations
    def need(reg, n)
        raise NoRef if !reg.include?(n)
        reg.get(n)
    end
    def into(d, reg)
        raise DriverError, 'not a registry' if !(Registry === reg)
        @regs[d - 1] = reg
        ''
    end
    def exec(c)
        r = @regs[(c['r'] || 1) - 1]
        d = c['d']
        n = c['n']
        case c['op']
        when 'reset'
            @regs = Array.new(NREG) { Registry.new }
            @probes, @known = Set.new, Set.new
            GC.start if (@resets = (@resets || 0) + 1) % 8 == 0
            ''
        when 'num' then note(n); created(r, n, r.create_numeric(n, c['size'], c['num'].to_sym))
        when 'opq' then note(n); created(r, n, r.create_opaque(n, c['size']))
        when 'nul' then note(n); created(r, n, r.create_null(n))
        when 'enu'
            note(n)
            how = c['how']
            t = r.create_enum(*[n, c['size']].compact) do |b|
                c['vals'].each do |s, v|
                    if how == 'add' then v ? b.add(s, v) : b.add(s)
                    elsif v then b.send("#{s}=", v)
                    else b.send(s)
                    end
                end
            end
            created(r, n, t)
        when 'cmp'
            note(n)
            fs = c['fields'].map { |f| f['o'] ? f.merge('t' => need(f['fr'] ? @regs[f['fr'] - 1] : r, f['t'])) : f }
            t = r.create_compound(*[n, c['size']].compact) do |b|
                fs.each do |f|
                    if f['off'] then b.add(f['n'], f['t'], f['off'])
                    elsif f['set'] then b.send("#{f['n']}=", f['t'])
                    else b.add(f['n'], f['t'])
                    end
                end
            end
            created(r, n, t)
        when 'cont'
            of = c['o'] ? need(c['fr'] ? @regs[c['fr'] - 1] : r, c['of']) : c['of']
            t = r.create_container(*[c['kind'], of, c['size']].compact)
            created(r, t.name, t)
        when 'arr'
            of = c['o'] ? need(r, c['of']) : c['of']
            note("#{c['of']}[#{c['dim']}]")
            t = r.create_array(*[of, c['dim'], c['size']].compact)
            created(r, t.name, t)
        when 'toptr' then t = need(r, n).to_ptr; created(r, t.name, t)
        when 'build' then note(n); t = c['sz'] ? r.build(n, c['sz']) : r.build(n); created(r, t.name, t)
        when 'get' then r.get(n).name
        when 'inc' then r.include?(n)
        when 'alias' then note(c['name']); x = r.alias(c['name'], c['base']); raise DriverError, 'alias' if !x.equal?(r); ''
        when 'removeAlias' then note(c['name']); r.remove_alias(c['name']); ''
        when 'clearAliases' then r.clear_aliases; ''
        when 'remove' then names_of(r.remove(need(r, n)))
        when 'rdeps' then names_of(r.reverse_depends(need(r, n)))
        when 'aliasesOf' then r.aliases_of(need(r, n)).sort
        when 'prefix' then c['al'] ? r.each(n, with_aliases: true).map { |x, t| raise DriverError, 'each' if !r.get(x).equal?(t); x } : r.each(n).map { |t| t.name }
        when 'merge' then x = r.merge(@regs[c['from'] - 1]); raise DriverError, 'merge' if !x.equal?(r); ''
        when 'addt' then r.add(need(@regs[c['from'] - 1], n)); ''
        when 'dup' then into(d, r.dup)
        when 'minimal' then into(d, c.has_key?('al') ? r.minimal(n, c['al']) : r.minimal(n))
        when 'minreg' then t = need(r, n); into(d, c.has_key?('al') ? t.minimal_registry(with_aliases: c['al']) : t.minimal_registry)
        when 'minimal2' then into(d, c.has_key?('keep') ? r.minimal(@regs[c['auto'] - 1], c['keep']) : r.minimal(@regs[c['auto'] - 1]))
        when 'resize'
            if c['o'] && c['sizes'].size == 1 then r.resize_type(*c['sizes'].map { |x, s| [r.include?(x) ? r.get(x) : x, s] }[0])
            else r.resize(c['sizes'].map { |x, s| [c['o'] && r.include?(x) ? r.get(x) : x, s] }.to_h)
            end
            ''
        when 'srcof' then r.source_id_of(need(c['from'] ? @regs[c['from'] - 1] : r, n)) || ''
        when 'meta'
            t = need(r, n)
            m = t.metadata
            if c['f']
                raise NoRef if !(t < CompoundType) || !t.has_field?(c['f'])
                m = t.field_metadata[c['f']]
            end
            case c['mode']
            when 'set' then m.set(c['k'], *c['v'])
            when 'set1' then m[c['k']] = c['v'][0] || 'v1'
            when 'add' then m.add(c['k'], *c['v'])
            when 'clear' then m.clear(c['k'])
            when 'delete' then m.delete(c['k'])
            when 'clearall' then m.clear
            end
            [m.include?(c['k']), m.get(c['k'])]
        when 'enumget'
            t = need(r, n)
            raise NoRef if !(t < EnumType)
            c['sym'] ? t.value_of(c['sym']) : t.name_of(c['val'])
        when 'tlbload'
            text = doc_xml(c['doc'], c['root'] || 'typelib')
            case c['how']
            when 'xml' then x = r.merge_xml(text); raise DriverError, 'merge_xml' if !x.equal?(r)
            when 'file' then file(text) { |p| r.import(p, 'tlb', merge: false) }
            when 'auto' then file(text) { |p| r.import(p) }
            else file(text) { |p| r.import(p, nil, merge: true) }
            end
            ''
        when 'tlbraw' then r.merge_xml(c['text']); ''
        when 'tlbtrip'
            case c['how']
            when 'xml' then into(d, Registry.from_xml(r.to_xml))
            when 'file' then file(r.export('tlb')) { |p| into(d, Registry.import(p)) }
            else into(d, Registry.new.merge_xml(r.export('tlb')))
            end
        when 'typexml' then into(d, Registry.from_xml(need(r, n).to_xml))
        when 'idl'
            o = {}
            o[:namespace_prefix] = c['prefix'] if c['prefix']
            o[:namespace_suffix] = c['suffix'] if c['suffix']
            o['opaque_as_any'] = true if c['any']
            o[:blob_threshold] = c['blob'] if c['blob']
            o[:selected] = c['sel'] if !c['sel'].empty?
            r.export('idl', o).lines.map(&:chomp).map { |l| i = l.index(/[^ ]/); i && [i, l[i..-1]] }.compact
        when 'stdtypes' then x = Registry.add_standard_cxx_types(r); raise DriverError, 'stdtypes' if !x.equal?(r); ''
        when 'export' then exported(r, c)
        when 'cximp' then require_relative 'cxximp'; @last[d - 1] = nil; into(d, CxxImp.import(c))
        when 'same'
            b = @regs[c['r2'] - 1]
            same, cast, eql = [], [], []
            r.each do |x|
                b.each do |y|
                    same << [x.name, y.name] if x == y
                    cast << [x.name, y.name] if x.casts_to?(y)
                    eql << [x.name, y.name] if x.eql?(y)
                    raise DriverError, '!=' if (x != y) == (x == y)
                end
            end
            { same: same, cast: cast, eql: eql }
        else raise DriverError, "unknown op #{c['op']}"
        end
    end
    # what a chain of calls on a module that exports the registry gives
    def exported(r, c)
        nm = c['mod']
        nm = nil if nm && (nm !~ /^[A-Z]\w*$/ || Object.const_defined?(nm))
        c.delete('mod') if !nm
        root = c['how'] == 'mod' ? Module.new : RegistryExport::Namespace.new
        Object.const_set(nm, root) if nm
        filter = c['hide'] ? lambda { |t, x| t.name == c['hide'] ? nil : x } : c['sub'] ? lambda { |_, _| Hash } : nil
        if root.kind_of?(RegistryExport::Namespace) && !c['x2r'] then root.reset_registry_export(r, filter, '/')
        else r.export_to_ruby(root, &filter)
        end
        words = r.each(with_aliases: true).flat_map { |n, _| Typelib.split_typename(n) } + c['paths'].flatten
        c['sc'] = words.uniq.map { |w| [w, w.snakecase, w.camelcase] }
        c['paths'] = c['paths'].find_all { |path| reachable?(root, path, c['const']) }
        c['paths'].map { |path| resolved(r, root, path, c['const']) }
    ensure
        Object.send(:remove_const, nm) if nm && Object.const_defined?(nm)
    end
    def down(cur, x, const) const ? cur.const_missing(x[0].to_sym) : cur.public_send(*x) end
    # a method of the object itself hides the name
    def reachable?(root, path, const)
        return true if const
        path.inject(root) do |cur, x|
            return false if cur.respond_to?(x[0])
            down(cur, x, const)
        end
        true
    rescue StandardError
        true
    end
    def resolved(r, root, path, const)
        x = path.inject(root) { |cur, y| down(cur, y, const) }
        if Class === x && x < Type then ['ok', ['t', x.equal?(r.get(x.name)) ? x.name : '!' + x.name]]
        elsif RegistryExport::Namespace === x then ['ok', ['ns', x.to_s]]
        else ['ok', ['c', x.__getobj__.name]]
        end
    rescue StandardError => e
        STDERR.puts e.full_message(highlight: false) if ENV['VERBOSE']
        [resname(e), []]
    end
    def created(r, n, t)
        raise DriverError, "#{n}: not the type of the registry" if !t.kind_of?(Class) || !(t < Type) || !r.get(t.name).equal?(t)
        t.name
    end

    def step(c)
        if c['grow']
            r = @regs[c['r'] - 1]
            # a type is given a single size
            grow = c['grow'].uniq { |n, _| r.include?(n) ? r.get(n).name : n }
            c['sizes'] = grow.map { |n, by| [n, (r.include?(n) ? r.get(n).size : 0) + by] }
        end
        out = ''
        begin
            out = exec(c)
            res = 'ok'
        rescue DriverError => e
            res = "!#{e.message}"
        rescue StandardError, NotImplementedError => e
            res = resname(e)
            STDERR.puts e.full_message(highlight: false) if ENV['VERBOSE']
        end
        @regs.each { |r| r.each(with_aliases: true) { |n, _| note(n) } } if c['op'] != 'reset'
        np = (@probes - @known).to_a
        @known.merge(np)
        st = @regs.each_with_index.map do |r, i|
            s = begin state(r)
                rescue StandardError => e
                    STDERR.puts e.full_message(highlight: false) if ENV['VERBOSE']
                    { bad: "#{e.class}: #{e.message}"[0, 300] }
                end
            k = JSON.generate(s)
            if k == @last[i] then [] else @last[i] = k; s end
        end
        # what an operation that failed half-way left is reported, and dropped
        i = (c['r'] || 1) - 1
        if res != 'ok' && PARTIAL.include?(c['op']) && st[i] != []
            @regs[i] = Registry.new
            @last[i] = nil
        end
        { 'res' => res, 'out' => out, 'np' => np, 'st' => st }
    end
end

if $0 == __FILE__
    d = Driver.new
    run_driver(ARGV[0], ARGV[1]) { |c| d.step(c) }
end
