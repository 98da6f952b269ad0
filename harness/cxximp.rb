# Writes declarations as castxml reports them, with the header they come from,
# and imports them.
require 'typelib/cxx'
require 'fileutils'
module CxxImp
    LIB = '/nonexistent/include/lib.hh'
    JUNK = ['<Method id="_%sm" name="get" returns="_r" context="_r" access="public" file="f1" line="1" const="1"/>', '<ReferenceType id="_%sr" type="_r"/>',
            '<Variable id="_%sv" name="global" type="_r" context="_r" init="a=b" file="f1" line="1"/>', '<Function id="_%sf" name="operator==" returns="_r" context="_r" file="f1" line="1"/>']
    def self.esc(s) s.to_s.gsub('&', '&amp;').gsub('<', '&lt;').gsub('>', '&gt;').gsub("'", '&apos;') end
    def self.tag(n, a, open = false) "  <#{n}" + a.map { |k, v| v.nil? ? '' : " #{k}=\"#{esc(v)}\"" }.join + (open ? ">\n" : "/>\n") end
    def self.ctx(x) x['ctx'] == 0 ? '_r' : "_#{x['ctx']}" end
    def self.place(x) { file: x['own'] == false ? 'f2' : 'f1', line: x['xline'] || x['line'] } end

    def self.node(x, i)
        id = "_#{i}"
        named = { id: id, name: x['raw'] || x['cx'] || x['n'], context: x['ctx'] && ctx(x), access: x['acc'] }
        case x['k']
        when 'ns' then tag('Namespace', named)
        when 'fund' then tag('FundamentalType', id: id, name: x['n'], size: '32', align: '32')
        when 'ptr' then tag('PointerType', id: id, type: "_#{x['t']}", size: '64')
        when 'arr' then tag('ArrayType', id: id, min: '0', max: x['dim'] < 0 ? '' : "#{x['dim'] - 1}#{x['u']}", type: "_#{x['t']}")
        when 'cv' then tag('CvQualifiedType', id: id, type: "_#{x['t']}", const: x['c'], volatile: x['v'])
        when 'typedef' then tag('Typedef', named.merge(type: "_#{x['t']}", **place(x)))
        when 'str' then tag('Class', id: id, name: 'basic_string<char, std::char_traits<char>, std::allocator<char> >', context: ctx(x), members: '', size: '256', file: 'f2', line: '9')
        when 'vec' then tag('Class', **named, members: '', size: '192', file: 'f2', line: x['line'])
        when 'enum'
            tag('Enumeration', named.merge(size: '32', **place(x)), true) + x['vals'].map { |n, v| "  " + tag('EnumValue', name: n, init: v) }.join + "  </Enumeration>\n"
        when 'rec'
            m = []
            out = ''
            x['fields'].each_with_index do |f, j|
                out += tag('Field', id: "#{id}f#{j}", name: f['n'], type: "_#{f['t']}", offset: f['off'] * 8, context: id, access: f['acc'] || 'public', file: place(x)[:file], line: f['line'])
                m << "#{id}f#{j}"
            end
            out += tag(x['virt'] == true ? 'Destructor' : 'Constructor', { id: "#{id}c", name: x['n'], context: id, virtual: x['virt'] == true ? 1 : nil, access: 'public' })
            m.insert(m.size / 2, "#{id}c", "#{id}x")
            a = named.merge(members: m.join(' '), size: x['size'] * 8, incomplete: x['inc'] ? 1 : nil, **place(x))
            bases = x['bases'].map { |b| "  " + tag('Base', type: "_#{b['t']}", access: b['acc'] || 'public', virtual: b['virt'] ? 1 : 0, offset: b['off'] || 0) }.join
            k = x['class'] ? 'Class' : 'Struct'
            body = bases.empty? ? tag(k, a) : tag(k, a, true) + bases + "  </#{k}>\n"
            x['before'] ? out + body : body + out
        else x['union'] ? tag('Union', named.merge(members: '', size: '32', **place(x))) : tag('ReferenceType', id: id, type: '_r')
        end
    end

    def self.xml(c)
        out = "<?xml version=\"1.0\"?>\n<GCC_XML version=\"0.9.0\" cvs_revision=\"1.139\">\n"
        files = tag('File', id: 'f1', name: c['file']) + tag('File', id: 'f2', name: c['lib'])
        out += files if c['order'].size.odd?
        out += tag('Namespace', id: '_r', name: '::', members: '')
        c['order'].each_with_index do |i, j|
            out += node(c['decls'][i - 1], i)
            out += '  ' + JUNK[j % JUNK.size] % "j#{j}" + "\n" if (i + j) % 3 == 0
        end
        out += files if c['order'].size.even?
        out + "</GCC_XML>\n"
    end

    def self.import(c)
        dir = File.join(File.realpath(ENV['VERIF_SCRATCH']), "cxx#{Process.pid}")
        sub = File.join(dir, c['dir'] || '')
        FileUtils.mkdir_p(sub)
        c['file'] = File.join(sub, 'header.hh')
        c['lib'] = LIB
        File.write(c['file'], c['src'].map { |l| l + "\n" }.join)
        text = xml(c)
        c.delete('src')
        STDERR.puts text if ENV['VERBOSE']
        Typelib::GCCXMLLoader.registry_from_gccxml_output([c['file']], text, Set.new(c['opaques']))
    ensure
        FileUtils.rm_rf(dir) if dir
    end
end
