require_relative 'shapes'
require 'tmpdir'
require 'fileutils'
RULE = "each case has several registries of random types and files of every kind (sound, damaged, contradicting, missing, of unknown format, with handlers of their own, C++ headers whose importer is a stand-in that records its calls, " \
       "plugins on two kinds of paths), imports and exports them in random order and with random options in every form that they can be given, and compares registries, documents, calls and loaded plugins with a model after each step. " \
       "Non-trivial: at least one import changed a registry; distinct by steps."

class Case
    def self.setup(ctx)
        @@dir = Dir.mktmpdir('verif-b12-')
        at_exit { FileUtils.remove_entry(@@dir) }
        # exit! does not run at_exit blocks
        dir, pid = @@dir, Process.pid
        Kernel.define_method(:leave!) { |n| FileUtils.remove_entry(dir) if Process.pid == pid && File.directory?(dir); Process.exit!(n) }
        Core.singleton_class.define_method(:exit!) { |n| leave!(n) }
        $loaded = []
        @@n = 0
        # what is found in every registry of C++ types
        @@std = []
        Typelib::CXXRegistry.new.each(with_aliases: true) { |n, _| @@std << n.dup }
    end
    def initialize(ctx); @c, @r = ctx, ctx.rng end

    # ---- what a registry has: descriptions of its types by name, and names of aliases
    Content = Struct.new(:types, :aliases)
    def describe(t)
        h = t.to_h(recursive: true, layout_info: true)
        norm = lambda do |d|
            case d
            when Hash then d.map { |k, x| [k, k == :values ? x.map { |e| norm[e] }.sort_by { |e| e[:name] } : norm[x]] }.to_h
            when Array then d.map { |x| norm[x] }
            when String then d.b
            else d
            end
        end
        [norm[h], t.opaque?, t.metadata.each.map { |k, v| [k, v.sort] }.sort]
    end
    def content(reg)
        types, aliases = {}, {}
        reg.each(with_aliases: true) do |n, t|
            if t.name == n then types[n.dup] = describe(t)
            # names of derived types that contain aliases follow from the others
            elsif n !~ /[<\[*]/ then aliases[n.dup] = t.name.dup
            end
        end
        Content.new(types, aliases)
    end
    def joined(a, b)
        Content.new(a.types.merge(b.types) { |_, x, y| [x[0], x[1], merged_metadata(x[2], y[2])] }, a.aliases.merge(b.aliases))
    end
    def merged_metadata(a, b) (a + b).group_by(&:first).map { |k, l| [k, l.flat_map(&:last).uniq.sort] }.sort end
    # whether b can be merged into a
    def fits?(a, b)
        b.types.all? { |n, d| !a.aliases.key?(n) && (!a.types.key?(n) || a.types[n][0, 2] == d[0, 2]) } &&
            b.aliases.all? { |n, t| !a.types.key?(n) && (!a.aliases.key?(n) || a.aliases[n] == t) }
    end
    def same!(reg, want, what)
        got = content(reg)
        d = if (x = (got.types.keys - want.types.keys) + (got.aliases.keys - want.aliases.keys)) && !x.empty? then "#{x} should not be there"
            elsif (x = (want.types.keys - got.types.keys) + (want.aliases.keys - got.aliases.keys)) && !x.empty? then "#{x} is missing"
            elsif (n = want.types.keys.find { |k| want.types[k] != got.types[k] }) then "#{n} is #{got.types[n]} instead of #{want.types[n]}"
            elsif (n = want.aliases.keys.find { |k| want.aliases[k] != got.aliases[k] }) then "#{n} is an alias of #{got.aliases[n]} instead of #{want.aliases[n]}"
            end
        @c.ck(!d, "#{what}-content", "after #{what}, #{d}")
    end

    # ---- sources: registries with types of our own
    Source = Struct.new(:reg, :content, :names, :opaques)
    def source
        reg = Typelib::CXXRegistry.new
        sh = Shapes.new(reg, @r)
        names, opaques = [], []
        @r.range(1, 4).times do
            s = @r.chance(1, 4) ? sh.enum : sh.random_struct(@r.range(1, 2))
            t = s.type
            t.metadata.add(@r.pick(%w{doc k <a>}), @r.pick(%w{v w & "x"})) if @r.chance(1, 3)
            names << t.name
            reg.alias("/al/A#{@r.below(4)}", t) if @r.chance(1, 3) && !reg.include?("/al/A#{@r.below(4)}") rescue nil
        end
        if @r.chance(1, 3)
            o = reg.create_opaque("/o/Op#{@r.below(3)}", @r.pick([0, 8, 24]))
            names << o.name
            opaques << o.name
        end
        m = Typelib::Registry.new(false)
        # only what our types need
        names.uniq.each { |n| m.merge(reg.minimal(n)) }
        Source.new(m, content(m), names.uniq, opaques)
    end
    def fresh_path(ext) "#{@@dir}/#{@r.pick(%w{f a\ b x.y é})}#{@@n += 1}#{ext}" end

    # ---- imports
    def give(path)
        return path if @r.chance(2, 3)
        # relative to the working directory
        up = '../' * Dir.pwd.count('/') if Dir.pwd != '/'
        "#{up}#{path[1..-1]}"
    end
    def ask(path, kind, **options)
        args = kind ? [path, kind] : @r.chance(1, 2) ? [path] : [path, @r.pick(['auto', nil])]
        @c.step("import #{args.map(&:inspect).join(', ')} #{options unless options.empty?}")
        if @r.chance(1, 6)
            r = nil
            e = raised { r = Typelib::Registry.import(*args, **options) }
            [e, r]
        else [raised { @reg.import(*args, **options) }, nil]
        end
    end
    def import_sound
        s = @r.chance(1, 3) && !@sources.empty? ? @r.pick(@sources) : source.tap { |x| @sources << x }
        ext, kind = @r.pick([['.tlb', nil], ['.tlb', 'tlb'], ['.txt', 'tlb'], ['', 'tlb'], ['.h', 'tlb'], ['.tlb', 'auto']])
        path = fresh_path(ext)
        File.binwrite(path, s.reg.to_xml)
        e, own = ask(give(path), kind)
        check_import(e, own, s, 'import')
    end
    # s was imported to the registry, or to one of its own
    def check_import(e, own, s, what)
        if own
            @c.ck(!e, what) { "#{what} of sound types to a new registry raised #{e.class}: #{e.message}" }
            if Typelib.load_type_plugins? == false || own.to_a.size == s.reg.to_a.size
                same!(own, s.content, 'import to a new registry')
            end
            @c.count('imports to new registries')
        elsif fits?(@content, s.content)
            @c.ck(!e, what) { "#{what} of sound types raised #{e.class}: #{e.message}" }
            @content = joined(@content, s.content)
            @imported = true
            @c.count('imports')
        else
            @c.ck(e.kind_of?(RuntimeError) || e.kind_of?(ArgumentError), "#{what}-conflict") { "#{what} of contradicting types #{e ? "raised #{e.class}" : 'was accepted'}" }
            refused(s)
        end
    end
    # what does not contradict may have been added by a refused merge, but nothing else changes
    def refused(s)
        now = content(@reg)
        bad = now.types.keys.find { |n| (@content.types[n] || s.content.types[n])&.first(2) != now.types[n].first(2) } || (@content.types.keys - now.types.keys).first ||
            now.aliases.keys.find { |n| (@content.aliases[n] || s.content.aliases[n]) != now.aliases[n] } || (@content.aliases.keys - now.aliases.keys).first
        @c.ck(!bad, 'conflict-harm') { "a refused import changed #{bad}" }
        @content, @refused = now, true
        @c.count('conflicts refused')
    end
    # the names of another source, for something else
    def contradicting
        return if @sources.empty?
        n = @r.pick(@r.pick(@sources).names)
        reg = Typelib::CXXRegistry.new
        case @r.below(3)
        when 0 then reg.create_compound(n) { |b| b.add 'other_field_name', '/double' }
        when 1 then reg.create_enum(n) { |b| b.add 'OTHER', 3 }
        else reg.create_opaque(n, 77)
        end
        m = reg.minimal(n)
        m.merge(source.reg) if @r.chance(1, 2)
        s = Source.new(m, content(m), [n], [])
        path = fresh_path('.tlb')
        File.binwrite(path, m.to_xml)
        @c.step("contradicting #{n}")
        e, own = ask(path, nil)
        check_import(e, own, s, 'import')
    rescue RuntimeError, ArgumentError => e
        raise if e.message !~ /already|different/
    end
    def import_damaged
        doc = source.reg.to_xml.b
        path = fresh_path('.tlb')
        kind = nil
        how = @r.below(6)
        case how
        when 0 then doc = doc[0, @r.below(doc.size - 12)]
        when 1 then doc = @r.bytes(@r.below(40))
        when 2 then doc = doc.sub('</typelib>', '<compound name="/Bad" size="8"><field name="f" type="/not/there" offset="0"/></compound></typelib>')
        when 3 then doc = nil
        when 4 then path = fresh_path(@r.pick(['.xyz', '', '.TLB', '.tlb~'])); kind = nil
        when 5 then kind = @r.pick(%w{nokind TLB idl})
        end
        File.binwrite(path, doc) if doc
        return if how == 1 && doc.empty?
        e, = ask(path, kind)
        @c.ck(e.kind_of?(RuntimeError) || e.kind_of?(ArgumentError), 'damaged') { "import of #{%w{a\ truncated a\ random an\ incomplete a\ missing an\ unknown\ kind\ of a\ misnamed}[how]} file #{e ? "raised #{e.class}: #{e.message}" : 'was accepted'}" }
        @c.count('imports refused')
    end
    # importers written in Ruby
    def import_handler
        name = "kind#{@r.below(3)}"
        calls, result = [], Object.new
        fail = @r.chance(1, 4)
        s = source
        Typelib::Registry::TYPE_HANDLERS[name] = lambda do |reg, file, kind, **opts|
            calls << [reg, file, kind, opts]
            raise KeyError, 'the handler' if fail
            reg.merge(s.reg)
            result
        end
        ext = @r.pick(['.kx', '.tlb', '.h', ''])
        path = fresh_path(ext)
        auto = @r.chance(1, 3) && !ext.empty?
        old = Typelib::Registry::TYPE_BY_EXT[ext]
        Typelib::Registry::TYPE_BY_EXT[ext] = name if auto
        opts = {}
        opts[:merge] = @r.chance(1, 2) if @r.chance(1, 2)
        %i{include define other}.each { |o| opts[o] = @r.pick([['a', 'b'], 3, nil, { x: 1 }]) if @r.chance(1, 3) }
        kind = auto ? @r.pick(['auto', nil]) : name
        fits = fits?(@content, s.content)
        @c.step("import by a handler #{kind} #{opts} #{'failing' if fail}")
        got = nil
        e = raised { got = @reg.import(path, kind, **opts) }
        @c.ck(calls.size == 1, 'handler-calls', "the handler was called #{calls.size} times")
        reg, file, k, o = calls[0]
        @c.ck(reg.equal?(@reg) && file == File.expand_path(path) && k == kind && o == { merge: true }.merge(opts), 'handler-arguments') { "the handler got #{file} #{k} #{o}" }
        if fail then @c.ck(e.kind_of?(KeyError), 'handler-error', 'the exception of the handler is lost')
        elsif fits
            @c.ck(!e && got.equal?(result), 'handler-result') { "the handler's result is not returned, but #{e || got.inspect}" }
            @content = joined(@content, s.content)
            @imported = true
        else
            @c.ck(e, 'handler-conflict', 'contradicting types were merged')
            refused(s)
        end
        @c.count('handlers called')
    ensure
        Typelib::Registry::TYPE_HANDLERS.delete(name)
        old ? Typelib::Registry::TYPE_BY_EXT[ext] = old : Typelib::Registry::TYPE_BY_EXT.delete(ext) if auto
    end

    # ---- the clang importer is another program
    def import_clang
        s = source
        result, log, given = fresh_path('.res'), fresh_path('.log'), fresh_path('.opq')
        missing, status = @r.chance(1, 10), @r.chance(1, 6) ? @r.range(1, 3) : 0
        File.binwrite(result, @r.chance(1, 12) ? 'not a document' : s.reg.to_xml)
        sound = File.binread(result, 3) != 'not'
        ENV['CLANG_RESULT'], ENV['CASTXML_LOG'], ENV['CLANG_OPAQUES'], ENV['CLANG_STATUS'] = result, log, given, status.to_s
        path = fresh_path('.hpp')
        opts = {}
        flags, files = [], [path]
        list = lambda { |p| Array.new(@r.below(3)) { |i| "#{p}#{i} x" } }
        if @r.chance(1, 2) then opts[:include_paths] = list['/inc/p'] end
        if @r.chance(1, 2) then opts[:include] = list['/inc/i'] end
        if @r.chance(1, 2) then opts[:define] = list['D='] end
        if @r.chance(1, 3) then opts[:required_files] = files = @r.pick([[path, fresh_path('.h')], [fresh_path('.h')], [fresh_path('.h'), path], [fresh_path('.h'), fresh_path('.hh')]]) end
        opts[:cxx_importer] = @r.chance(1, 2) ? 'clang' : Typelib::CLangLoader
        want = [*opts[:include_paths], *opts[:include]].map { |x| "-I#{x}" }.sort + (opts[:define] || []).map { |x| "-D#{x}" }
        opaques = @content.types.find_all { |_, d| d[1] }.map(&:first)
        @c.step("import by clang #{opts} #{'failing' if status != 0}")
        e = raised { @reg.import(give(path), @r.pick(['c', 'auto', nil]), **opts) }
        @c.ck(File.exist?(log), 'clang-call') { "the importer was not called (#{e.inspect})" }
        call = File.read(log).lines.map { |l| l.chomp.split("\t") }
        @c.ck(call.size == 1, 'clang-calls', "the importer was called #{call.size} times")
        call = call[0]
        i = call.index('--')
        @c.ck(i && call[0...i].reject { |x| x.start_with?('-') } == files, 'clang-files') { "the importer got the files #{call[0...i.to_i]} instead of #{files}" }
        got = call[i..-1].grep(/\A-I/).sort + call[i..-1].grep(/\A-D/)
        @c.ck(got == want, 'clang-flags') { "the importer got the flags #{got} instead of #{want}" }
        o = content(Typelib::Registry.from_xml(File.read(given)))
        @c.ck(opaques.all? { |n| o.types[n] && o.types[n][1] }, 'clang-opaques') { "the importer was not told about the opaques #{opaques}, but about #{o.types.keys}" }
        if status != 0 || !sound
            @c.ck(e, 'clang-failure', 'the failure of the importer is ignored')
            @c.count('clang failures')
        else check_import(e, nil, s, 'clang')
        end
        @c.count('clang calls')
    end

    # ---- exports
    def export_tlb
        @c.step('export tlb')
        doc = @reg.to_xml
        @c.ck(@reg.export('tlb') == doc, 'export-twice', 'the document changes from one export to the next')
        opts = options
        @c.step("with options #{opts}")
        @c.ck(@reg.export('tlb', opts) == doc, 'export-options') { "unknown options change the document: #{opts}" }
        r = @r.chance(1, 2) ? Typelib::Registry.from_xml(doc) : Typelib::Registry.new(false).tap { |x| x.merge_xml(doc) }
        # derived types are only part of documents when others use them, which refused imports may not have added
        names = []
        r.each(with_aliases: true) { |n, _| names << n.dup }
        gone = lambda { |n| @refused && n =~ /[\[*]/ && !names.include?(n) }
        want = Content.new(@content.types.reject { |n, _| gone[n] }, @content.aliases.reject { |_, t| gone[t] })
        same!(r, want, 'export')
        @c.count('documents')
    end
    # options that nobody knows, in every form
    def options
        (1..@r.range(1, 3)).map { |i| [@r.chance(1, 2) ? "opt#{i}" : :"opt#{i}", value(2)] }.to_h
    end
    def value(depth)
        case @r.below(depth > 0 ? 8 : 5)
        when 0 then 'text'
        when 1 then @r.range(-3, 100)
        when 2 then @r.chance(1, 2)
        when 3 then :sym
        when 4 then 1.5
        when 5 then Array.new(@r.below(4)) { value(0) }
        when 6 then Array.new(@r.range(1, 3)) { { 'k' => value(depth - 1), other: value(depth - 1) } }
        else { k: value(depth - 1), 'l' => value(depth - 1) }
        end
    end
    def form(x)
        case x
        when Array then x.map { |y| form(y) }
        when true, false then @r.chance(1, 2) ? x : x.to_s
        when Integer then @r.chance(1, 2) ? x : x.to_s
        else x.to_s
        end
    end
    # IDL: which declarations are made, in which modules
    def export_idl
        reg = Typelib::Registry.new(false)
        reg.create_numeric('/double', 8, :float)
        reg.create_numeric('/int32_t', 4, :sint)
        want = {}
        @r.range(1, 5).times do |i|
            ns = @r.pick(['/', '/a/', '/a/b/', '/c/'])
            name = "#{ns}T#{i}"
            case @r.below(4)
            when 0
                reg.create_enum(name) { |b| b.add("V#{i}", i) }
                want[name] = [ns, 'enum', 4]
            when 1
                reg.create_opaque(name, 8)
                want[name] = [ns, 'opaque', 8]
            else
                of = want.keys.find_all { |k| want[k][1] != 'struct' || want[k][2] < 60 }
                t = reg.create_compound(name) { |b| b.add 'd', '/double'; @r.below(4).times { |j| b.add "i#{j}", '/int32_t' }; b.add 'o', @r.pick(of) if !of.empty? && @r.chance(1, 2) }
                want[name] = [ns, 'struct', t.size]
            end
        end
        opts, prefix, suffix, any, blob, selected = {}, '', '', false, 0, nil
        if @r.chance(1, 2) then opts[:namespace_prefix] = @r.pick(['Pre', 'Pre/Fix', '/Pre']); prefix = opts[:namespace_prefix] end
        if @r.chance(1, 2) then opts[:namespace_suffix] = @r.pick(['Suf', 'Suf/Fix']); suffix = opts[:namespace_suffix] end
        if @r.chance(1, 2) then opts[:opaque_as_any] = any = @r.chance(2, 3) end
        if @r.chance(1, 3) then opts[:blob_threshold] = blob = @r.range(9, 40) end
        if @r.chance(1, 3) then opts[:selected] = selected = @r.shuffle(want.keys).first(@r.range(1, 2)) end
        given = opts.map { |k, v| [@r.chance(1, 2) ? k : k.to_s, form(v)] }.to_h
        given[:selected] = given.delete('selected') || given[:selected] if selected && selected.size == 1
        given[:selected] = selected[0] if selected && selected.size == 1 && @r.chance(1, 2)
        @c.step("export idl #{given}")
        text = nil
        e = raised { text = reg.export('idl', given) }
        if !any && (selected || want.keys).any? { |n| uses_opaque?(reg.get(n)) && !(blob > 0 && reg.get(n).size > blob && !reg.get(n).opaque?) }
            @c.ck(e.kind_of?(RuntimeError), 'idl-opaque') { "the export of opaques #{e ? "raised #{e.class}" : 'was accepted'}: #{text}" }
            @c.count('IDL refused')
            return
        end
        @c.ck(!e, 'idl') { "the export raised #{e.class}: #{e.message}" }
        expected = want.map do |n, (ns, kind, size)|
            next if kind == 'opaque' || selected && !selected.include?(n)
            kind = 'blob' if blob > 0 && size > blob && kind != 'enum'
            "#{prefix}/#{ns}/#{suffix}".split('/').reject(&:empty?).join('::') + "::#{n[/\w+\z/]} #{kind}"
        end.compact.sort
        got = declarations(text)
        @c.ck(got == expected, 'idl-declarations') { "the export declared #{got} instead of #{expected}:\n#{text}" }
        @c.count('IDL documents')
    end
    def uses_opaque?(t) t.opaque? || t <= Typelib::CompoundType && t.each_field.any? { |_, f| f.opaque? } end
    def declarations(text)
        path, r, skip = [], [], false
        text.each_line do |l|
            case l.strip
            when /\Amodule (\w+) \{/ then path << $1
            when /\A(struct|enum) (\w+) \{/ then r << "#{path.join('::')}::#{$2} #{$1}"; path << nil if $1 == 'struct'
            when /\Atypedef sequence<octet> (\w+);/ then r << "#{path.join('::')}::#{$1} blob"
            when /\A\};/ then path.pop
            when /\Atypedef/ then r << "unexpected: #{l.strip}"
            end
        end
        r.sort
    end

    # ---- plugins, found on the load path and on a path of their own
    def plugins
        ENV.delete('TYPELIB_RUBY_PLUGIN_PATH')
        Typelib.load_typelib_plugins(force: true)
        $loaded.clear
        dirs = Array.new(@r.range(1, 3)) { File.join(@@dir, "plug#{@@n += 1}").tap { |d| FileUtils.mkdir_p(d) } }
        plugin = lambda { |file| File.write(file, "$loaded << #{file.inspect}\n"); file }
        want = []
        dirs.each do |d|
            case @r.below(4)
            when 0 then want << plugin["#{d}/typelib_plugin.rb"]; plugin["#{d}/other.rb"] if @r.chance(1, 2)
            when 1 then want.concat(%w{a.rb b.rb}.first(@r.range(1, 2)).map { |n| plugin["#{d}/#{n}"] }); plugin["#{d}/c.txt"]
            when 2 then FileUtils.mkdir_p("#{d}/sub"); plugin["#{d}/sub/deep.rb"]
            end
        end
        dirs.insert(@r.below(dirs.size), File.join(@@dir, 'missing')) if @r.chance(1, 4)
        on_path = @r.chance(1, 2)
        base = File.join(@@dir, "gem#{@@n += 1}")
        if on_path
            FileUtils.mkdir_p("#{base}/some")
            want << plugin["#{base}/some/typelib_plugin.rb"]
            $LOAD_PATH.unshift(base)
        end
        ENV['TYPELIB_RUBY_PLUGIN_PATH'] = dirs.join(':')
        @c.step("plugins #{want.map { |f| f.delete_prefix(@@dir) }}")
        STDERR.reopen(File.open(File::NULL, 'w')) if (quiet = STDERR.dup)
        begin
            # Some are there already: they are not loaded twice, and do not keep others from being loaded
            want.each { |f| require f if @r.chance(1, 4) }
            Typelib.load_typelib_plugins(force: true)
            @r.below(3).times { @r.chance(1, 2) ? Typelib.load_typelib_plugins : Typelib::Registry.new(true) }
            Typelib.load_typelib_plugins(force: true) if @r.chance(1, 2)
        ensure
            STDERR.reopen(quiet)
            quiet.close
        end
        @c.ck($loaded.sort == want.sort, 'plugins') { "#{$loaded} was loaded instead of #{want}" }
        @c.count('plugins loaded', want.size)
    ensure
        ENV.delete('TYPELIB_RUBY_PLUGIN_PATH')
        $LOAD_PATH.delete(base)
    end

    # ---- copies
    def copies
        @c.step('dup')
        d = @reg.dup
        same!(d, @content, 'dup')
        own = @content.types.keys - @@std
        return if own.empty?
        n = @r.pick(own)
        t = d.get(n)
        @c.ck(t.registry.equal?(d) && t == @reg.get(n), 'dup-type', "#{n} is another type in a copy")
        d.create_opaque("/new/X#{@@n += 1}", 3)
        same!(@reg, @content, 'changing a copy')
        @c.count('copies')
    end

    def run
        Typelib.load_type_plugins = false
        Typelib::CXX.remove_instance_variable(:@loader) if Typelib::CXX.instance_variable_defined?(:@loader)
        @reg = @r.chance(1, 2) ? Typelib::Registry.new(false) : Typelib::CXXRegistry.new
        @content = content(@reg)
        @sources, @imported, @refused, steps = [], false, false, []
        if @r.chance(1, 3)
            o = @reg.create_opaque("/o/Op#{@r.below(3)}", @r.pick([0, 8, 24]))
            @content = content(@reg)
        end
        @c.desc("a registry of #{@content.types.size} types")
        @r.range(3, @c.thorough ? 20 : 9).times do
            k = @r.below(24)
            steps << k
            case k
            when 0..6 then import_sound
            when 7..8 then contradicting
            when 9..10 then import_damaged
            when 11..13 then import_handler
            when 14..15 then import_clang
            when 16..17 then export_tlb
            when 18..20 then export_idl
            when 21 then plugins
            else copies
            end
            same!(@reg, @content, 'a step')
        end
        @c.sig("#{steps} #{@content.types.keys}") if @imported
        @c.sample("steps #{steps}, #{@content.types.size} types in the end")
        Dir.children(@@dir).each { |f| FileUtils.rm_rf(File.join(@@dir, f)) }
    ensure
        %w{CLANG_RESULT CASTXML_LOG CLANG_OPAQUES CLANG_STATUS}.each { |k| ENV.delete(k) }
    end
end
Core.main(RULE, Case)
