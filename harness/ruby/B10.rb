require_relative 'shapes'
require 'tmpdir'
require 'fileutils'
require 'set'
RULE = "each case makes up C++ headers (nested namespaces, records with bases and nested types, template instances, vectors, strings, enums, typedefs, arrays, pointers, opaques, declarations that cannot be represented, documentation), " \
       "hands their castxml form to the loader through a stand-in for castxml, and compares types, aliases, layouts and metadata with the declarations. Non-trivial: at least three declarations; distinct by headers."

# A C++ type or declaration. res is the name of what it is expected to be in the registry, nil if it cannot be represented
class Decl
    ATTRS = %i{kind name ctx args res size align file line mark target n fields bases values access reason empty opaque doc metas xmlline anon nested values2}
    attr_accessor(*ATTRS, :id)
    def initialize(kind, **h)
        @kind, @fields, @bases, @nested, @metas = kind, [], [], [], []
        h.each { |k, v| send("#{k}=", v) }
    end
    def inspect; "#<#{kind} #{name}>" end
end
Field = Struct.new(:name, :type, :offset, :access, :line, :doc, :metas, :id)
Base = Struct.new(:decl, :offset, :access, :virtual)

class Case
    ODD = ['Holder<int &>', 'function<void (int)>', "Flag<'a'>", 'Number<1.5>', 'Chosen<(Color)1>', 'Member<int (C::*)(int) const>', 'Address<(& value)>', 'Wide<4294967296ul>', 'Outer<Flag<true ? 1 : 2>, int>']
    PLAIN = { 'Pack<>' => '/Pack<>', 'Outer<Pack<>, int>' => '/Outer</Pack<>,/int32_t>', 'Array<int [3]>' => '/Array</int32_t[3]>', 'Three<A<B<>>, C<D<>, E<>>>' => '/Three</A</B<>>,/C</D<>,/E<>>>' }
    FUND = { 'int' => ['/int32_t', 4], 'unsigned int' => ['/uint32_t', 4], 'short int' => ['/int16_t', 2], 'short unsigned int' => ['/uint16_t', 2], 'long int' => ['/int64_t', 8],
             'long unsigned int' => ['/uint64_t', 8], 'long long int' => ['/int64_t', 8], 'long long unsigned int' => ['/uint64_t', 8], 'char' => ['/char', 1],
             'signed char' => ['/int8_t', 1], 'unsigned char' => ['/uint8_t', 1], 'bool' => ['/bool', 1], 'float' => ['/float', 4], 'double' => ['/double', 8], 'void' => ['/void', 0] }
    def self.setup(ctx)
        @@warnings = []
        Typelib.define_singleton_method(:warn) { |*m| Case.class_variable_get(:@@warnings).concat(m) }
        reg = Typelib::CXXRegistry.new
        # what the names of the language mean here is checked elsewhere, if it is what they mean for the compiler
        FUND.each_key { |n| FUND[n][0] = reg.get("/#{n}").name }
    end
    def initialize(ctx); @c, @r = ctx, ctx.rng end

    # ---- names
    def local(d) d.args ? "#{d.name}<#{t = d.args.map { |a| cxx(a) }.join(', ')}#{t.end_with?('>') ? @gt : '>'}" : d.name end
    def path(d) d.ctx.nil? || d.ctx.kind == :root ? '' : path(d.ctx) + local(d.ctx) + '::' end
    def cxx(d)
        case d
        when Integer then d.to_s
        else
            case d.kind
            when :pointer then cxx(d.target) + (d.target.kind == :pointer ? '*' : @star)
            when :array then "#{cxx(d.target)}[#{d.n}]"
            when :string then @string_name
            else path(d) + local(d)
            end
        end
    end

    # the name as it is spelled
    def raw(d)
        return d.to_s if d.kind_of?(Integer)
        case d.kind
        when :root then ''
        when :fund then "/#{d.name}"
        when :pointer then raw(d.target) + '*'
        when :array then "#{raw(d.target)}[#{d.n}]"
        when :string then '/std/string'
        when :alloc then "/std/allocator<#{raw(d.args[0])}>"
        else "#{raw(d.ctx)}/#{d.name}#{"<#{d.args.map { |a| raw(a) }.join(',')}>" if d.args}"
        end
    end
    # the name with all aliases resolved
    def canon(d)
        return d.to_s if d.kind_of?(Integer)
        case d.kind
        when :root then ''
        when :fund then FUND[d.name] ? FUND[d.name][0] : "/#{d.name}"
        when :pointer then canon(d.target) + '*'
        when :array then "#{canon(d.target)}[#{d.n}]"
        when :const then canon(d.target)
        when :string then '/std/string'
        when :vector then d.res ? "/std/vector<#{canon(d.target)}>" : "/std/vector<#{canon(d.target)},/std/allocator<#{canon(d.target)}>>"
        when :typedef, :ns then "#{canon(d.ctx)}/#{d.name}"
        else d.opaque || (PLAIN[d.name] && canon(d.ctx) + PLAIN[d.name]) || "#{canon(d.ctx)}/#{d.name}#{"<#{d.args.map { |a| canon(a) }.join(',')}>" if d.args}"
        end
    end
    def simple(name) name.gsub(/\s+/, '') end

    # ---- types made from others, one of each
    def fund(n) @derived[[:fund, n]] ||= Decl.new(:fund, name: n, res: FUND[n] && FUND[n][0], size: FUND[n] ? FUND[n][1] : 16, align: FUND[n] ? FUND[n][1] : 16) end
    def pointer(t) @derived[[:pointer, t]] ||= Decl.new(:pointer, target: t, res: t.res && t.res + '*', size: 8, align: 8) end
    def array(t, n) @derived[[:array, t, n]] ||= Decl.new(:array, target: t, n: n, res: t.res && "#{t.res}[#{n}]", size: t.size * n, align: t.align) end
    def const(t, how) @derived[[:const, t, how]] ||= Decl.new(:const, target: t, values: how, res: t.res, size: t.size, align: t.align) end
    def vector(t)
        @derived[[:vector, t]] ||= Decl.new(:vector, name: 'vector', ctx: @std, target: t, args: [t, Decl.new(:alloc, name: 'allocator', ctx: @std, args: [t])], file: @stl, line: 3,
                                                     res: t.res && "/std/vector<#{t.res}>", size: 24, align: 8)
    end
    def string
        @string ||= Decl.new(:string, name: 'string', ctx: @std, res: '/std/string', size: 32, align: 8)
    end
    # what other names have to be seen through
    def plain(t) [:typedef, :const].include?(t.kind) ? plain(t.target) : t end

    def bad
        case @r.below(8)
        when 7
            # types whose name cannot be one here, but that look like any other
            d = Decl.new(@r.pick([:struct, :class]), name: @r.pick(ODD), ctx: @root, file: @current, line: @lines[@current].size, size: 4, align: 4, reason: 'odd')
            return @declared.find { |x| x.name == d.name } || fund('long double') unless @names[:odd] ||= Set.new and @names[:odd].add?(d.name)
            d.fields << Field.new('x', fund('int'), 0, 'public', d.line, nil, [])
            @declared << d
            d
        when 0 then Decl.new(:ref, target: fund('int'), size: 8, align: 8)
        when 1 then Decl.new(:union, name: fresh('U'), ctx: @root, file: @current, line: 1, size: 8, align: 8)
        when 2 then Decl.new(:pointer, target: Decl.new(:function, size: 1, align: 1), size: 8, align: 8)
        when 3 then Decl.new(:struct, anon: true, name: '', ctx: @root, file: @current, line: 1, size: 4, align: 4)
        when 4 then fund(@r.pick(['long double', '__int128']))
        when 5 then Decl.new(:missing, size: 4, align: 4)
        else pointer(Decl.new(:struct, name: fresh('Declared'), ctx: @root, file: @current, line: 1, size: 1, align: 1, reason: 'incomplete'))
        end
    end
    def fresh(p) "#{p}#{@fresh += 1}" end
    def visible
        @declared.find_all { |d| @sees[@current].include?(d.file) }
    end
    def type(depth = 2)
        known = visible
        t = case @r.below(depth > 0 ? 14 : 8)
            when 0..3 then fund(@r.pick(FUND.keys - ['void']))
            when 4..6 then known.empty? ? fund('double') : @r.pick(known)
            when 7 then string
            when 8..9 then array(type(depth - 1), @r.range(1, 4))
            when 10 then pointer(@r.chance(1, 12) ? fund('void') : type(depth - 1))
            when 11..12 then vector(element(depth - 1))
            else
                x = type(depth - 1)
                x.kind == :const || x.kind == :array ? x : const(x, @r.pick(%w{const const volatile both}))
            end
        t
    end
    # elements of vectors and arguments of templates have their own names
    def element(depth)
        t = plain(type(depth))
        return element(depth) if [:array, :fundamental].include?(t.kind) || (t.kind == :fund && !FUND[t.name]) || improper?(t)
        t
    end
    # vectors that cannot be represented have no definite name
    def argument
        t = x = element(1)
        x = plain(x.target) while x.kind == :pointer
        (x.kind == :vector && !x.res) || raw(x).include?('/__hidden') ? argument : t
    end
    # whether the name cannot be one here
    def odd?(d)
        return false unless d.kind_of?(Decl)
        ODD.include?(d.name) || (d.args && d.args.any? { |a| odd?(a) }) || (d.ctx && odd?(d.ctx)) || (d.kind != :typedef && d.kind != :const && d.target && odd?(d.target))
    end
    def improper?(t) t.kind == :array || t.kind == :const || t.anon || (t.target && t.kind != :vector && improper?(t.target)) || (t.kind == :pointer && (@pointers == 0 || !plain(t.target).equal?(t.target) || t.target.name == 'void')) || [:missing, :ref, :union, :function].include?(t.kind) end

    # ---- documentation
    WORDS = %w{the position of robot in m, (see http://x.org/a) * - value: / // "quoted" <b>bold</b> 3.5 é & end}
    def documentation(indent)
        return [nil, [], []] unless @r.chance(1, 2)
        text = Array.new(@r.range(1, 4)) do |i|
            next '' if @r.chance(1, 6)
            (i > 0 && @r.chance(1, 5) ? '  ' : '') + 'A' + Array.new(@r.range(0, 4)) { @r.pick(WORDS) }.join(' ').then { |s| s.empty? ? 'x' : ' ' + s }
        end
        metas = []
        @r.below(3).times do
            metas << [@r.pick(%w{unit key other}), Array.new(@r.range(1, 3)) { @r.pick(%w{m/s 3 abc : "x" -}) }.join(' ')]
            text << "@meta #{metas.last[0]} #{metas.last[1]}"
        end if @r.chance(1, 3)
        text = ['text'] if text.all?(&:empty?)
        style = @r.below(6)
        text = [text.find { |t| !t.empty? }] if style == 3
        metas = metas.first(1) if style == 3
        metas = [] if style == 3 && text[0] !~ /^@meta/
        lines = case style
                when 0 then text.map { |t| t.empty? ? '//' : "// #{t}" }
                when 1 then text.map { |t| t.empty? ? '///' : "/// #{t}" }
                when 2 then ['/**'] + text.map { |t| t.empty? ? ' *' : " * #{t}" } + [' */']
                when 3 then ["/*#{'*' if @r.chance(2, 3)} #{text[0]} */"]
                when 4 then text.first.empty? ? ['/**'] + text.map { |t| " * #{t}" } + [' */'] : ["/** #{text[0]}"] + text[1..-1].map { |t| " * #{t}" } + [' */']
                else text.each_with_index.map { |t, i| "#{i == 0 ? '/**' : ' *'} #{t}" } + [' **/']
                end
        text = text.drop_while(&:empty?).reverse.drop_while(&:empty?).reverse
        # lines that are further in stay so
        drop = text.reject(&:empty?).map { |t| t[/^ */].size }.min
        text = text.map { |t| t[drop..-1].to_s }
        [text.join("\n"), metas, lines.map { |l| ' ' * indent + l } + (@r.chance(1, 6) ? [''] * @r.range(1, 2) : [])]
    end
    def put(line) @lines[@current] << line; @lines[@current].size end

    # ---- declarations
    def contexts
        # where the declarations go: few names, so that they are found again elsewhere
        @namespaces ||= begin
            a = [@root]
            @r.range(1, 4).times do
                parent = @r.pick(a)
                n = @r.pick(%w{a b c})
                a << Decl.new(:ns, name: n, ctx: parent) unless a.any? { |x| x.ctx.equal?(parent) && x.name == n }
            end
            a
        end
    end
    def free_name(ctx, pool)
        n = @r.pick(pool)
        @names[ctx] ||= Set.new
        n = fresh(n) until @names[ctx].add?(n)
        n
    end
    def declare(ctx, indent)
        case @r.below(10)
        when 0..5 then record(ctx, indent)
        when 6..7 then enumeration(ctx, indent)
        else typedef(ctx, indent)
        end
    end
    def record(ctx, indent)
        d = Decl.new(@r.pick([:struct, :class]), ctx: ctx, file: @current)
        if @r.chance(1, 5) && (!@templates.empty? || ctx.kind != :struct)
            # one more instance of a template
            d.args = Array.new(@r.range(1, 2)) { @r.chance(1, 4) ? @r.range(-3, 20) : argument }
            d.name = @r.chance(1, 2) ? 'Tpl' : free_name(ctx, %w{T Matrix})
            @names[ctx] ||= Set.new
            return nil unless @names[ctx].add?("#{d.name}#{d.args.map { |a| a.kind_of?(Integer) ? a : canon(a) }}")
            @names[ctx] << d.name
            @templates << d.name
        else
            d.name = free_name(ctx, %w{A B C D E F})
            d.name = fresh('__hidden') if @hidden && @r.chance(1, 10)
            if @r.chance(1, 30)
                d.name = @r.pick(PLAIN.keys)
                return nil unless @names[ctx].add?(d.name)
                array(fund('int'), 3)
            end
        end
        d.access = ctx.kind == :struct || ctx.kind == :class ? @r.pick(%w{public public public private protected}) : nil
        candidates = visible.find_all { |x| [:struct, :class].include?(x.kind) && !x.anon && x.reason != 'incomplete' && (x.opaque ? @r.chance(1, 5) : true) }
        if @r.chance(1, 4) && !candidates.empty?
            @r.shuffle(candidates).first(@r.range(1, 2)).each { |b| d.bases << Base.new(b, 0, @r.chance(1, 8) ? @r.pick(%w{private protected}) : 'public', @r.chance(1, 12)) }
            # no name twice
            seen = Set.new
            d.bases.select! { |b| all_fields(b.decl).all? { |f, _| seen.add?(f) } && b.decl.fields.none? { |f| f.name == 'same' } }
            d.bases << Base.new(vector(fund('int')), 0, 'public', false) if @r.chance(1, 25)
        end
        # a template that it is an argument of, and has a field of
        if (ctx.kind == :ns || ctx.kind == :root) && !d.args && !odd?(d) && @r.chance(1, 20)
            ref = Decl.new(:struct, name: fresh('Ref'), args: [d], ctx: ctx, file: @current, size: 4, align: 4)
            ref.line = ref.xmlline = put(' ' * indent + "template <> struct #{local(ref)} {")
            ref.fields << Field.new('id', fund('int'), 0, 'public', put(' ' * (indent + 4) + 'int id;'), nil, [])
            put(' ' * indent + '};')
            ref.res = canon(ref)
        end
        d.doc, d.metas, lines = documentation(indent)
        lines.each { |l| put(l) }
        head = "#{d.args ? 'template <> ' : ''}#{d.kind} #{local(d)}#{d.bases.empty? ? '' : ' : ' + d.bases.map { |b| "public #{cxx(b.decl)}" }.join(', ')}"
        how = @r.below(4)
        d.line = put(' ' * indent + head + (how == 0 ? '' : ' {'))
        d.xmlline = d.line
        if how == 0
            put('') if @r.chance(1, 4)
            n = put(' ' * indent + '{')
            d.xmlline = n if @r.chance(2, 3)
        end
        # types inside
        if indent < 8 && @r.chance(1, 4)
            @r.range(1, 2).times { x = declare(d, indent + 4); d.nested << x if x }
        end
        offset = 0
        d.align = 1
        d.bases.each do |b|
            b.offset = b.decl.empty ? 0 : offset = align(offset, b.decl.align)
            d.align = [d.align, b.decl.align].max
            offset += b.decl.size unless b.decl.empty
        end
        taken = d.bases.flat_map { |b| all_fields(b.decl).map(&:first) }.to_set
        special = @r.chance(1, 6)
        n = @r.chance(1, 12) ? 0 : @r.range(1, 5)
        n.times do
            t = @r.chance(1, special ? 6 : 40) ? bad : type
            name = @r.pick(%w{x y z data value first id}) + (@r.chance(1, 2) ? '' : @r.below(4).to_s)
            next unless taken.add?(name)
            f = Field.new(name, t, offset = align(offset, t.align), @r.chance(1, special ? 10 : 60) ? @r.pick(%w{private protected}) : 'public')
            offset += t.size
            d.align = [d.align, t.align].max
            f.doc, f.metas, lines = documentation(indent + 4)
            lines.each { |l| put(l) }
            f.line = put(' ' * (indent + 4) + "#{@r.pick(%w{T Type})} #{name};")
            d.fields << f
        end
        if ref
            d.fields << Field.new("in_#{ref.name}", ref, offset = align(offset, 4), 'public', put(' ' * (indent + 4) + "Ref in_#{ref.name};"), nil, [])
            offset += 4
            d.align = [d.align, 4].max
        end
        # that would be contained in itself
        if @r.chance(1, 25)
            itself = @r.chance(1, 2) ? pointer(d) : vector(d)
            f = Field.new('self', itself, offset = align(offset, 8), 'public', put(' ' * (indent + 4) + "Self self;"), nil, [])
            offset += itself.size
            d.align = 8
            d.fields << f
            recursive = true
        end
        put(' ' * indent + (@r.chance(1, 2) ? '};' : '}; // end of it').then { |l| l })
        d.size = [align(offset, d.align), 1].max
        virtual = @r.chance(1, special ? 8 : 60)
        incomplete = @r.chance(1, 60) && !recursive
        # in the order in which they are told apart
        bases = d.bases.reject { |b| b.decl.empty }
        d.reason = if d.access && d.access != 'public' then 'access'
                   elsif bases.any? { |b| !b.decl.res || b.decl.kind == :vector || b.decl.opaque || b.virtual || b.access != 'public' } then 'base'
                   elsif incomplete then 'incomplete'
                   elsif virtual then 'virtual'
                   elsif d.fields.empty? && bases.empty? then 'empty'
                   elsif recursive then 'recursive'
                   elsif d.fields.any? { |f| f.access != 'public' || !f.type.res } then 'field'
                   elsif d.name.start_with?('__') then 'hidden'
                   elsif odd?(d) then 'odd'
                   end
        d.empty = d.reason == 'empty' && !d.name.start_with?('__') && !odd?(d)
        d.values = virtual
        d.reason = 'incomplete' if incomplete && d.reason != 'access' && d.reason != 'base'
        d.anon = false
        d.reason ||= nil
        d.res = canon(d) unless d.reason
        if ctx.kind != :struct && ctx.kind != :class && @r.chance(1, 12) && !d.args && !PLAIN[d.name]
            d.opaque = d.res = raw(d)
            @opaques << d.opaque
        elsif (ctx.kind == :ns || ctx.kind == :root) && @r.chance(1, 20) && !d.nested.any? && !PLAIN[d.name] && !odd?(d)
            n = free_name(ctx, %w{Name Handle})
            t = Decl.new(:typedef, name: n, ctx: ctx, file: @current, target: d, size: d.size, align: d.align)
            t.doc, t.metas, lines = documentation(indent)
            lines.each { |l| put(l) }
            t.line = t.xmlline = put(' ' * indent + "typedef #{local(d)} #{n};")
            d.opaque = d.res = t.res = t.opaque = raw(t)
            @opaques << t.opaque
            @declared << t
        end
        if d.opaque
            d.empty = false
            d.reason = nil
            # types that were made from it before
            @derived.each_value { |x| x.res = "/std/vector<#{d.res}>" if x.kind == :vector && x.target.equal?(d); x.res = d.res + '*' if x.kind == :pointer && x.target.equal?(d) }
        end
        if ref
            ref.res = canon(ref)
            @declared << ref
        end
        @declared << d
        d
    end
    def align(o, a) (o + a - 1) / a * a end
    # with those of the bases: name, type, offset, the place of the declaration
    def all_fields(d)
        return [] unless [:struct, :class].include?(d.kind)
        d.bases.reject { |b| b.decl.empty }.flat_map { |b| all_fields(b.decl).map { |n, t, o, f| [n, t, b.offset + o, f] } } + d.fields.map { |f| [f.name, f.type, f.offset, [d.file, f]] }
    end
    def enumeration(ctx, indent)
        d = Decl.new(:enum, name: free_name(ctx, %w{E F State}), ctx: ctx, file: @current, size: 4, align: 4)
        d.access = ctx.kind == :struct || ctx.kind == :class ? @r.pick(%w{public public public private}) : nil
        d.doc, d.metas, lines = documentation(indent)
        lines.each { |l| put(l) }
        d.line = put(' ' * indent + "enum #{d.name}#{how = @r.pick([' {', ''])}")
        d.xmlline = d.line
        if how == ''
            n = put(' ' * indent + '{')
            d.xmlline = n if @r.chance(1, 2)
        end
        d.values = {}
        @r.range(1, 5).times { |i| d.values[@r.pick(%w{ON OFF IDLE RUN X}) + (@r.chance(1, 2) ? i.to_s : '')] = @r.pick([i, i, i * 10, -i - 1, 2**31 - 1, -2**31, 0]) }
        if @r.chance(1, 15)
            case @r.below(3)
            when 0 then d.values['BIG'] = @r.pick([2**32 - 1, 2**31, -2**31 - 1, 2**63, 2**64 - 1])
            when 1 then d.values = {}
            else d.size = d.align = @r.pick([1, 2, 8])
            end
            d.reason = 'enum'
        end
        put(' ' * (indent + 4) + d.values.keys.join(', '))
        put(' ' * indent + '};')
        d.reason = 'access' if d.access && d.access != 'public'
        d.reason = 'odd' if odd?(d)
        d.res = canon(d) unless d.reason
        @declared << d
        d
    end
    def typedef(ctx, indent)
        if (ctx.kind == :ns || ctx.kind == :root) && @r.chance(1, 20)
            t = [lambda { fund(@r.pick(FUND.keys - ['void'])) }, lambda { pointer(fund('int')) }, lambda { string }, lambda { array(fund('double'), 3) }][@r.below(4)].call
            d = Decl.new(:typedef, name: free_name(ctx, %w{Name Handle}), ctx: ctx, file: @current, target: t, size: t.size, align: t.align)
            d.doc, d.metas, lines = documentation(indent)
            lines.each { |l| put(l) }
            d.line = d.xmlline = put(' ' * indent + "typedef T #{d.name};")
            d.res = d.opaque = raw(d)
            @opaques << d.opaque
            @declared << d
            return d
        end
        t = @r.chance(1, 15) ? bad : type
        return nil if t.res && t.opaque && t.kind == :typedef && @r.chance(1, 2)
        d = Decl.new(:typedef, name: free_name(ctx, %w{A B Alias Name}), ctx: ctx, file: @current, target: t, size: t.size, align: t.align, res: t.res)
        d.name = fresh('__alias') if @r.chance(1, 20)
        d.access = ctx.kind == :struct || ctx.kind == :class ? @r.pick(%w{public public public private}) : nil
        d.res = nil if (d.access && d.access != 'public') || odd?(d)
        d.line = d.xmlline = put(' ' * indent + "typedef T #{d.name};")
        @declared << d
        d
    end

    # ---- their form in XML
    def escape(s) s.to_s.gsub('&', '&amp;').gsub('<', '&lt;').gsub('>', '&gt;').gsub('"', '&quot;').gsub("'", '&apos;') end
    def node(tag, attrs, children = [])
        a = attrs.reject { |_, v| v.nil? }.map { |k, v| " #{k}=\"#{escape(v)}\"" }.join
        return "  <#{tag}#{a}/>\n" if children.empty?
        "  <#{tag}#{a}>\n" + children.map { |t, x| "    <#{t}#{x.map { |k, v| " #{k}=\"#{escape(v)}\"" }.join}/>\n" }.join + "  </#{tag}>\n"
    end
    def xml(roots)
        ids = {}
        last = 0
        order = []
        id = lambda do |d|
            next ids[d] if ids[d]
            ids[d] = "_#{last += 1}#{'c' if d.kind_of?(Decl) && d.kind == :const}"
            order << d
            ids[d]
        end
        files = {}
        fid = lambda { |f| files[f] ||= "f#{files.size + 1}" }
        place = lambda { |f, l| { location: "#{fid[f]}:#{l}", file: fid[f], line: l } }
        out = []
        # what is declared in the files, whether or not it is referred to
        id[@root]
        roots.each { |d| id[d] }
        i = 0
        while i < order.size
            d = order[i]
            i += 1
            ctx = { context: (id[d.ctx] if d.ctx) }
            size = { size: d.size && d.size * 8, align: d.align && d.align * 8 }
            case d.kind
            when :root then out << node('Namespace', { id: id[d], name: '::' })
            when :ns then out << node('Namespace', { id: id[d], name: d.name, **ctx })
            when :fund then out << node('FundamentalType', { id: id[d], name: d.name, **size })
            when :pointer then out << node('PointerType', { id: id[d], type: id[d.target], **size })
            when :ref then out << node('ReferenceType', { id: id[d], type: id[d.target], **size })
            when :function then out << node('FunctionType', { id: id[d], returns: id[fund('int')] })
            when :array then out << node('ArrayType', { id: id[d], min: 0, max: "#{d.n - 1}#{@u}", type: id[d.target] })
            when :const then out << node('CvQualifiedType', { id: id[d], type: id[d.target], const: (1 if d.values != 'volatile'), volatile: (1 if d.values != 'const') })
            when :union then out << node('Union', { id: id[d], name: d.name, **ctx, **place[d.file, d.line], **size })
            when :missing # castxml does not know it
            when :enum
                out << node('Enumeration', { id: id[d], name: d.name, **ctx, access: d.access, **place[d.file, d.xmlline], **size }, d.values.map { |n, v| ['EnumValue', { name: n, init: v }] })
            when :typedef then out << node('Typedef', { id: id[d], name: d.name, type: id[d.target], **ctx, access: d.access, **place[d.file, d.line] })
            when :vector
                m = "_#{last += 1}"
                out << node('Class', { id: id[d], name: local(d), **ctx, **place[d.file, d.line], members: m, **size }, [])
                out << node('Method', { id: m, name: 'size', returns: id[fund('long unsigned int')], context: id[d], access: 'public', **place[d.file, d.line] })
                id[d.target]
            when :string
                k = "_#{last += 1}"
                ns = @cxx11 ? id[@cxx11] : id[@std]
                out << node('Typedef', { id: id[d], name: 'string', type: k, **ctx, **place[@stl, 5] })
                out << node('Class', { id: k, name: @string_name.sub(/^std::(__cxx11::)?/, ''), context: ns, **place[@stl, 4], members: '', **size })
                # types are referred to by the class as often as by the name
                ids[d] = k if @r.chance(1, 2)
            when :struct, :class
                if d.reason == 'incomplete' && d.fields.empty? && d.bases.empty?
                    out << node(d.kind.to_s.capitalize, { id: id[d], name: local(d), **ctx, **place[d.file, d.xmlline || d.line], incomplete: 1 })
                    next
                end
                members = []
                d.fields.each do |f|
                    members << "_#{last += 1}"
                    out << node('Field', { id: members.last, name: f.name, type: id[f.type], **{ context: id[d] }, access: f.access, **place[d.file, f.line], offset: f.offset * 8 })
                end
                (d.reason == 'virtual' || d.values == true ? [1] : [0]).concat([0] * @r.below(2)).each do |v|
                    members.insert(@r.below(members.size + 1), "_#{last += 1}").then { |_| nil }
                    out << node(@r.pick(%w{Method Destructor OperatorMethod}), { id: "_#{last}", name: 'do', context: id[d], access: 'public', **place[d.file, d.line], virtual: (1 if v == 1), inline: 1 })
                end if !d.fields.empty? || d.values == true || @r.chance(1, 2)
                d.nested.each { |x| members << id[x] }
                tag = d.kind.to_s.capitalize
                out << node(tag, { id: id[d], name: (d.anon ? nil : local(d)), **ctx, access: d.access, **place[d.file, d.xmlline || d.line],
                                   incomplete: (1 if d.reason == 'incomplete'), members: members.join(' '), **size,
                                   bases: (d.bases.map { |b| "#{'private:' if b.access != 'public'}#{id[b.decl]}" }.join(' ') unless d.bases.empty?) },
                            d.bases.map { |b| ['Base', { type: id[b.decl], access: b.access, virtual: b.virtual ? 1 : 0, offset: b.offset }] })
                d.args.each { |a| id[a] if a.kind_of?(Decl) && a.kind != :alloc } if d.args
            end
        end
        out = @r.shuffle(out) if @shuffled
        where = @r.chance(1, 4) ? 0 : out.size
        out.insert(where, *files.map { |f, i| node('File', { id: i, name: @spelled[f] || @paths[f] }) })
        "<?xml version=\"1.0\"?>\n<GCC_XML version=\"0.9.0\" cvs_revision=\"1.139\">\n#{out.join}</GCC_XML>\n"
    end

    # ---- what is expected
    def real(f) @real[f] end
    def place(d, line = d.line) "#{real(d.file)}:#{line}" end
    def same_doc?(md, doc, metas, file)
        got = md.get('doc')
        return got.empty? unless doc
        doc = doc.gsub('é', "\uFFFD") if @latin && file == 'lib'
        got.size == 1 && got[0].split("\n").map(&:rstrip) == doc.split("\n").map(&:rstrip) && metas.group_by(&:first).all? { |k, v| md.get(k).sort == v.map(&:last).uniq.sort }
    end
    def check_type(t, d)
        what = "#{d.kind} #{cxx(d)}"
        md = t.metadata
        unless d.kind == :vector || d.kind == :typedef || !d.line
            @c.ck(md.get('source_file_line') == [place(d)], 'place') { "#{what}: found at #{md.get('source_file_line')} instead of #{place(d)}" }
            @c.ck(same_doc?(md, d.doc, d.metas, d.file), 'doc') { "#{what}: documentation is #{md.get('doc')}, with #{md.each.to_a} instead of #{d.doc.inspect} #{d.metas}" }
        end
        same = d.kind == :vector ? @derived.values.find_all { |x| x.kind == :vector && x.res == d.res } : [d]
        @c.ck((same.size > 1 || md.get('cxxname').size == 1) && md.get('cxxname').all? { |n| same.any? { |x| simple(n) == simple("::#{cxx(x)}") } } && !md.get('cxxname').empty?, 'cxxname') { "#{what}: the C++ name is #{md.get('cxxname')}" } unless d.kind == :typedef
        case d.kind
        when :enum
            @c.ck(t <= Typelib::EnumType && t.keys == d.values, 'enum') { "#{what}: #{t.keys} instead of #{d.values}" }
        when :vector
            @c.ck(t <= Typelib::ContainerType && t.container_kind == '/std/vector' && t.deference.name == d.target.res, 'vector') { "#{what} is a #{t.superclass} of #{t.deference.name rescue nil}" }
        when :struct, :class
            expected = all_fields(d).map { |n, x, o, _| [n, x.res, o] }
            got = t.fields.map { |n, x| [n, x.name, t.offset_of(n)] }
            @c.ck(got.sort == expected.sort, 'fields') { "#{what}: the fields are #{got} instead of #{expected}" }
            @c.ck(got.sort_by { |_, _, o| o }.map(&:first) == got.map(&:first), 'field-order') { "#{what}: the fields are in the order #{got}" } if d.bases.size <= 1
            @c.ck(t.size == d.size, 'size') { "#{what}: #{t.size} bytes instead of #{d.size}" }
            bases = d.bases.reject { |b| b.decl.empty }.map { |b| b.decl.res }
            @c.ck(md.get('base_classes').sort == bases.uniq.sort, 'bases') { "#{what}: base classes are #{md.get('base_classes')} instead of #{bases}" }
            all_fields(d).each do |n, _, _, (file, f)|
                m = t.field_metadata[n]
                @c.ck(m.get('source_file_line') == ["#{real(file)}:#{f.line}"], 'field-place') { "#{what}: the field #{n} is found at #{m.get('source_file_line')} instead of #{real(file)}:#{f.line}" }
                @c.ck(same_doc?(m, f.doc, f.metas, file), 'field-doc') { "#{what}: documentation of #{n} is #{m.get('doc')} with #{m.each.to_a} instead of #{f.doc.inspect} #{f.metas}" }
            end
            @c.count('records compared')
        end
    end
    def check(reg, required, opaques)
        all = @declared.find_all { |d| required.any? { |f| @sees[f].include?(d.file) } }
        wanted = all.find_all { |d| required.include?(d.file) && d.res }
        by_name = {}
        (all + @derived.values).each { |d| by_name[d.res] ||= d if d.res && ![:typedef, :const, :fund].include?(d.kind) && !d.opaque }
        used = lambda { |d| d.res }
        wanted.each do |d|
            t = raised { @got = reg.get(d.kind == :typedef ? canon(d) : d.res) }
            next @c.ck(@base.include?(d.res) || reg.include?(d.res), 'alias-target') { "#{cxx(d)}: #{d.res} is not there" } if d.kind == :typedef && d.name.start_with?('__')
            @c.ck(!t, 'missing') { "#{d.kind} #{cxx(d)} is not in the registry as #{d.kind == :typedef ? canon(d) : d.res} (#{t.message}); it has #{names(reg)}; warnings: #{@@warnings.last(5)}" }
            @c.ck(@got.name == d.res, 'wrong') { "#{d.kind} #{cxx(d)} is #{@got.name} instead of #{d.res}" }
            @c.count('declarations found')
        end
        @c.count('declarations that cannot be represented', all.count { |d| required.include?(d.file) && !d.res })
        aliases = all.find_all { |d| d.kind == :typedef && d.res && !d.name.start_with?('__') }.map { |d| [canon(d), d.res] }.to_h
        reg.each(with_aliases: true) do |name, t|
            if name != t.name
                next if @base.include?(name) || (name =~ /(\*|\[\d+\])\z/ && t.name.end_with?($1)) || (t <= Typelib::ContainerType && name[0, 13] == '/std/vector</')
                @c.ck(aliases[name] == t.name, 'alias') { "the alias #{name} of #{t.name} is unknown, or should be one of #{aliases[name]}" }
            elsif opaques.include?(name)
                @c.ck(t <= Typelib::OpaqueType, 'opaque') { "#{name} should be opaque" }
                d = all.find { |x| x.opaque == name && (x.kind == :typedef || !x.res.nil?) && raw(x) == name }
                next unless d
                td = all.any? { |x| x.kind == :typedef && raw(x) == name }
                @c.ck(t.metadata.get('opaque_is_typedef') == (td ? ['1'] : []), 'opaque-typedef') { "opaque_is_typedef of #{name} is #{t.metadata.get('opaque_is_typedef')}" }
                @c.ck(simple(t.metadata.get('cxxname').join) == simple("::#{cxx(d)}"), 'opaque-name') { "the C++ name of the opaque #{name} is #{t.metadata.get('cxxname')}" } if required.include?(d.file)
                @c.ck(t.metadata.get('source_file_line').include?(place(d)), 'opaque-place') { "the opaque #{name} is found at #{t.metadata.get('source_file_line')}" } if required.include?(d.file)
                @c.count('opaques')
            elsif @base.include?(name) then next
            elsif (d = by_name[name]) && [:struct, :class, :enum, :vector].include?(d.kind)
                @c.ck(all.include?(d) || d.kind == :vector, 'other-file') { "#{name} should not be known" }
                check_type(t, d)
            elsif t <= Typelib::ArrayType || t <= Typelib::PointerType
                @c.ck(by_name[name], 'derived') { "#{name} is not expected" } unless opaques.any? { |o| name.include?(o) } || name.include?('/void') || name.include?('/nil')
                @c.ck(t.deference.name == (t <= Typelib::ArrayType ? name[/(.*)\[/, 1] : name.chomp('*')), 'derived-element') { "#{name} is made of #{t.deference.name}" }
            else @c.fail('unknown', "#{t.superclass} #{name} is not declared, or cannot be represented")
            end
        end
    end
    def names(reg) reg.each(with_aliases: true).map { |n, t| n == t.name ? n : "#{n}=#{t.name}" }.reject { |n| @base.include?(n) || @base.include?(n.split('=')[0]) }.join(' ') end

    # ---- tokens for jobs, as make has them: everything that works holds one
    class Jobs
        attr_reader :most, :now, :free
        def initialize(n, tokens)
            @lock, @cond = Mutex.new, ConditionVariable.new
            @free, @now, @most = tokens, 0, 0
        end
        def take
            @lock.synchronize do
                @cond.wait(@lock) while @free <= 0
                @free -= 1
                @now += 1 if block_given?
                @most = [@most, @now].max
            end
        end
        def get
            take { }
            return @lock.synchronize { @now -= 1 } unless block_given?
            begin yield
            ensure @lock.synchronize { @now -= 1; @free += 1; @cond.signal }
            end
        end
        def put; @lock.synchronize { @free += 1; @cond.signal } end
    end

    def headers
        @fresh = 0
        @derived, @declared, @names, @opaques, @templates = {}, [], {}, Set.new, []
        @gt = @r.pick([' >', '>'])
        @gt = @gt == ' >' ? ' >' : '>'
        @star = @r.pick(['*', ' *'])
        @pointers = @r.below(4)
        @u = @r.pick(['', 'u'])
        @shuffled = @r.chance(1, 3)
        @hidden = @r.chance(1, 4)
        @root = Decl.new(:root, name: '::')
        @std = Decl.new(:ns, name: 'std', ctx: @root)
        @cxx11 = Decl.new(:ns, name: '__cxx11', ctx: @std) if @r.chance(1, 3)
        @string_name = @r.chance(1, 2) && !@cxx11 ? 'std::basic_string<char>' : "std::#{'__cxx11::' if @cxx11}basic_string<char, std::char_traits<char>, std::allocator<char>#{@gt == ' >' ? ' >' : '>'}"
        @stl = 'stl'
        # a file that is included, and those to import
        @files = ['lib', 'one', 'two', 'three'].first(@r.range(2, 4))
        @sees = { 'lib' => ['lib'] }
        @files[1..-1].each_with_index { |f, i| @sees[f] = (['lib', f] + (i > 0 && @r.chance(1, 2) ? @sees[@files[@r.range(1, i)]] : [])).uniq }
        odd = @r.chance(1, 8) ? @r.pick(['with space', 'a=b', 'a:b', 'a&b', 'é', "quo'te"]) : 'inc'
        @dir = File.realpath(Dir.mktmpdir('typelib-b10-'))
        FileUtils.mkdir_p(File.join(@dir, odd))
        @linked = @r.chance(1, 6)
        FileUtils.ln_s(odd, File.join(@dir, 'link')) if @linked
        @lines, @paths, @real, @spelled = Hash.new { |h, k| h[k] = [] }, {}, {}, {}
        (@files + [@stl]).each do |f|
            @real[f] = File.join(@dir, odd, "#{f}.#{@ext ||= @r.pick(%w{hpp h hh})}")
            @paths[f] = @linked ? File.join(@dir, 'link', File.basename(@real[f])) : @real[f]
            @spelled[f] = File.join(File.dirname(@paths[f]), '.', '..', File.basename(File.dirname(@paths[f])), File.basename(@paths[f])) if @r.chance(1, 6) && !@linked
        end
        @lines[@stl] = ['#ifndef STL', '#define STL', 'template class vector', 'template class basic_string', 'typedef string', '#endif']
        @files.each do |f|
            @current = f
            put('#pragma once') if @r.chance(3, 4)
            put('#include "x.h"') if @r.chance(1, 2) && !@lines[f].empty?
            @r.range(1, @c.thorough ? 12 : 7).times do
                ctx = @r.pick(contexts)
                opened = []
                x = ctx
                while x.kind == :ns
                    opened.unshift(x.name)
                    x = x.ctx
                end
                opened.each { |n| put("namespace #{n} {") }
                put('') if @r.chance(1, 3)
                declare(ctx, opened.empty? ? 0 : 4)
                opened.each { put('}') }
                put('') if @r.chance(1, 2)
            end
            put(@r.pick(['// the end', '', '#endif /* X */', ' */'])) if @r.chance(1, 2)
        end
        (@files + [@stl]).each do |f|
            text = @lines[f].join("\n") + "\n"
            # not all files are in the encoding one expects
            text = text.b.gsub('é'.b, "\xe9".b) if f == 'lib' && (@latin = @r.chance(1, 10))
            File.binwrite(@real[f], text)
        end
        @required = @files[1..-1]
        @required.each { |f| File.binwrite(@paths[f] + '.castxml', x = xml(@declared.find_all { |d| @sees[f].include?(d.file) })); STDERR.puts x if @c.verbose }
    end
    def import(reg, opaques, mine)
        files = @required.map { |f| @paths[f] }
        log = File.join(@dir, 'calls')
        ENV['CASTXML_LOG'] = log
        File.delete(log) if File.exist?(log)
        ENV['CASTXML_DELAY'] = @r.chance(1, 10) ? '2000' : nil
        options = {}
        given = []
        { define: '-D', include: '-I', include_paths: '-I' }.each do |k, flag|
            next unless @r.chance(1, 4)
            options[k] = Array.new(@r.range(0, 2)) { |i| "#{k}#{i}#{@r.pick(['', '=1', ' x'])}" }
            given.concat(options[k].map { |v| flag + v })
        end
        options[:rawflags] = given.unshift('-std=c++17') && ['-std=c++17'] if @r.chance(1, 4)
        options[:opaques] = opaques unless opaques.empty?
        jobs = nil
        level = 1
        if files.size > 1 || @r.chance(1, 2)
            options[:required_files] = files
            if @r.chance(1, 2)
                level = options[:parallel_level] = @r.range(1, 4)
                jobs = options[:job_server] = Jobs.new(0, @r.below(3)) if @r.chance(2, 3)
            end
        end
        free = jobs && jobs.free
        failing = @r.chance(1, 20) ? @r.pick(@required) : nil
        File.delete(@paths[failing] + '.castxml') if failing && @r.chance(2, 3)
        File.binwrite(@paths[failing] + '.castxml', @r.pick(["", "<?xml version=\"1.0\"?>\n", "<?xml version=\"1.0\"?>\n<typelib>\n</typelib>\n"])) if failing && File.exist?(@paths[failing] + '.castxml')
        before = reg.to_xml
        gccxml = false
        e = raised do
            Thread.report_on_exception = false
            gccxml = (way = @r.below(6)) > 3
            options[:castxml] = false if gccxml
            case way
            when 0 then Typelib::CXX.load(reg, files[0], 'c', **options)
            when 4 then Typelib::GCCXMLLoader.load(reg, files[0], 'c', **options)
            when 5
                @r.chance(1, 2) ? Typelib::Registry.load_from_gccxml(reg, files[0], 'c', options) : Typelib::CXX.load(reg, files[0], 'c', cxx_importer: 'gccxml', **options)
            when 1 then Typelib::CastXMLLoader.load(reg, files[0], 'c', **options)
            when 2 then reg.import(files[0], @r.pick(%w{c auto}), **options)
            else
                options[:opaques] = opaques + mine unless mine.empty?
                reg.merge(Typelib::Registry.import(files[0], 'c', **options))
            end
        end
        # others may still be at work after a failure
        2000.times { break if !jobs || jobs.free == free; sleep 0.001 }
        @c.ck(!jobs || jobs.free == free, 'jobs') { "#{jobs.free} tokens are left of #{free}" }
        @c.ck(!jobs || jobs.most <= free + 1, 'jobs-most') { "#{jobs.most} jobs worked at once, with #{free} tokens and one's own" } if level > 1
        if failing
            @c.ck(e.kind_of?(ArgumentError) || e.kind_of?(RuntimeError), 'failure') { "the failure of castxml #{e ? "raised #{e.class}: #{e.message} #{e.backtrace.first(3)}" : 'was ignored'}" }
            @c.ck(reg.to_xml == before, 'failure-changes', 'an import that failed changed the registry')
            @c.count('failures')
            return false
        end
        @c.ck(!e, "import:#{e.class}") { "importing raised #{e.class}: #{e.message}\n#{e.backtrace.first(12).join("\n")}" }
        calls = File.read(log).lines.map { |l| l.chomp.split("\t") }
        File.delete(log)
        calls.each { |c| @c.ck((c.last.start_with?('-fxml=') ? c.pop && true : false) == gccxml, 'tool') { "the wrong tool was called, with #{c}" } }
        given << '-DEIGEN_DONT_VECTORIZE' if gccxml
        @c.ck(calls.map(&:last).sort == (options[:required_files] || files.first(1)).sort, 'calls') { "castxml was called for #{calls.map(&:last)}" }
        calls.each { |c| @c.ck(given.all? { |g| c.include?(g) } && c.count { |x| x =~ /^-[DI]/ } == given.count { |x| x =~ /^-[DI]/ }, 'flags') { "castxml was called with #{c} instead of #{given}" } }
        @c.count("imports with #{gccxml ? 'gccxml' : 'castxml'}")
        @c.count("imports at level #{level}")
        true
    end
    def run
        return names_only if @r.chance(1, 12)
        @@warnings.clear
        headers
        @c.desc(@files.map { |f| "#{f} (#{@sees[f].join(',')}):\n#{@lines[f].join("\n")}" }.join("\n") + "\nopaques #{@opaques.to_a}")
        @base = Typelib::CXXRegistry.new
        opaques = @opaques.to_a
        opaques << '/a/NotDeclared' if @r.chance(1, 8)
        reg = @r.chance(1, 2) ? Typelib::CXXRegistry.new : Typelib::Registry.new
        mine = []
        opaques.dup.each { |o| mine << opaques.delete(o) if @r.chance(1, 3) }
        mine.each { |o| reg.create_opaque(o, 0) }
        again = @r.chance(1, 6)
        if import(reg, opaques, mine)
            required = @required
            check(reg, required, opaques + mine)
            if again
                @c.step('again')
                x = reg.to_xml
                check(reg, required, opaques + mine) if import(reg, opaques, mine)
                @c.ck(reg.to_xml == x, 'again', 'the second import changed the registry')
            end
            others(reg) if @r.chance(1, 4)
        end
        @c.sig(@lines.values.join("\n")) if @declared.size > 2
        @c.sample(@lines.values_at(*@files).map { |l| l.join("\n") }.join("\n---\n"))
    ensure
        FileUtils.remove_entry(@dir) if @dir
        @dir = nil
    end
    def others(_reg)
        f = @r.pick(@required)
        File.delete(File.join(@dir, 'calls')) if File.exist?(File.join(@dir, 'calls'))
        text = Typelib::CXX.preprocess([@paths[f]], 'c', define: ['X=1'], include: ['/x'])
        @c.ck(text == "#include <#{@paths[f]}>\n", 'preprocess') { "preprocessing was given #{text.inspect}" }
        calls = File.read(File.join(@dir, 'calls')).lines.map { |l| l.chomp.split("\t") }
        @c.ck(calls.size == 1 && calls[0].include?('-DX=1') && calls[0].include?('-I/x'), 'preprocess-flags') { "preprocessing was called with #{calls}" }
        File.delete(File.join(@dir, 'calls'))
    end

    # ---- names of templates
    def template(depth)
        n = Array.new(@r.range(1, 2)) { @r.pick(%w{a ns T vector Abc_1}) }
        return [n, []] if depth == 0 || @r.chance(1, 3)
        [n, Array.new(@r.range(1, 3)) { @r.chance(1, 5) ? @r.pick(%w{3 -1 0 12}) : template(depth - 1) }]
    end
    def spell(t, sep, sp)
        return t if t.kind_of?(String)
        n = (sep == '/' ? '/' : '') + t[0].join(sep)
        return n if t[1].empty?
        n + sp.call + '<' + t[1].map { |a| sp.call + spell(a, sep, sp) + sp.call }.join(',') + '>'
    end
    def names_only
        t = template(3)
        @c.desc("names of #{t}")
        none = lambda { '' }
        some = lambda { ' ' * @r.below(3) }
        tl = spell(t, '/', none)
        cxx = spell(t, '::', some)
        got = Typelib::GCCXMLLoader.cxx_to_typelib(cxx)
        @c.ck(got == tl, 'to-typelib') { "#{cxx} is #{got} instead of #{tl}" }
        back = Typelib::GCCXMLLoader.new.typelib_to_cxx(tl)
        @c.ck(simple(back) == simple(spell(t, '::', none)), 'to-cxx') { "#{tl} is #{back} instead of #{cxx}" }
        base, args = Typelib::CXX.parse_template(cxx)
        @c.ck(base == t[0].join('::') && args == t[1].map { |a| spell(a, '::', none) }, 'parse') { "#{cxx} is parsed as #{base.inspect} #{args}" }
        base, args = Typelib::CXX.parse_template(tl)
        @c.ck(base == '/' + t[0].join('/') && args == t[1].map { |a| spell(a, '/', none) }, 'parse-typelib') { "#{tl} is parsed as #{base.inspect} #{args}" }
        # a name inside a template
        u = template(1)
        full = tl + spell(u, '/', none)
        parts = t[0][0...-1] + [tl[/[^\/<]+(<.*)?\z/] && spell([[t[0].last], t[1]], '/', none)[1..-1]] + u[0][0...-1] + [spell([[u[0].last], u[1]], '/', none)[1..-1]]
        @c.ck(Typelib::GCCXMLLoader.split_last_namespace(full) == ['/' + parts[0...-1].map { |p| p + '/' }.join, parts.last], 'last') { "#{full} is split as #{Typelib::GCCXMLLoader.split_last_namespace(full)}" }
        @c.ck(Typelib::GCCXMLLoader.split_first_namespace(full) == ["/#{parts[0]}/", parts[1..-1].join('/')], 'first') { "#{full} is split as #{Typelib::GCCXMLLoader.split_first_namespace(full)}" }
        @c.count('names')
    end
end
Core.main(RULE, Case)
