# B13: memory as Ruby sees it: layouts, views, values made from memory
require_relative 'shapes'

RULE = "one case = random types (structures with padding, arrays, vectors, strings, pointers and opaques at any depth); their memory layouts under all combinations of options interpreted " \
       "byte by byte and compared with the description of the type, then values of them viewed through addresses, memory zones and strings, written through either side, and made by each " \
       "constructor, with memory read directly; distinct by type; non-trivial when the type has padding, a container, a pointer or an opaque"

class Case
    def self.setup(_) Typelib.load_type_plugins = false end
    def initialize(c) @c, @r = c, c.rng end

    # one letter per byte: d data, . padding, c container, * pointer, o opaque
    def map_of(s)
        case s.kind
        when :string, :vector then 'c' * s.size
        when :pointer then '*' * s.size
        when :opaque then 'o' * s.size
        when :array then map_of(s.elem) * s.length
        when :struct
            m = '.' * s.size
            s.fields.each { |n, f| m[s.offsets[n], f.size] = map_of(f) }
            m
        else 'd' * s.size
        end
    end
    # where containers and enums are, as [offset, shape]
    def parts(s, kinds, at = 0)
        return [[at, s]] if kinds.include?(s.kind)
        case s.kind
        when :array then (0...s.length).flat_map { |i| parts(s.elem, kinds, at + i * s.elem.size) }
        when :struct then s.fields.flat_map { |n, f| parts(f, kinds, at + s.offsets[n]) }
        else []
        end
    end
    def nested(s) # the element types of containers too
        case s.kind
        when :array then nested(s.elem)
        when :vector then map_of(s.elem) + nested(s.elem)
        when :struct then s.fields.values.map { |f| nested(f) }.join
        else ''
        end
    end

    # interprets a layout up to the end of the block: [bytes, [[offset, container type, bytes of its elements]], rest]
    def walk(ops, top)
        out, conts, i = +'', [], 0
        until i == ops.size || ops[i] == :FLAG_END
            op, arg = ops[i], ops[i + 1]
            i += 2
            case op
            when :FLAG_MEMCPY then out << 'M' * arg
            when :FLAG_SKIP then out << 'S' * arg
            when :FLAG_ARRAY
                e, sub, n = walk(ops[i..-1], false)
                i += n
                arg.times { sub.each { |o, *x| conts << [o + out.size, *x] }; out << e }
            when :FLAG_CONTAINER
                e, sub, n = walk(ops[i..-1], false)
                i += n
                conts << [out.size, arg, e, sub]
                out << 'C' * arg.size
            else @c.fail('layout-form', "unknown operation #{op.inspect}")
            end
        end
        @c.ck(top ? i == ops.size : ops[i] == :FLAG_END, 'layout-form', "blocks are not closed")
        [out, conts, i + 1]
    end
    def walk_init(ops, top)
        out, i = [], 0
        until i == ops.size || ops[i] == :FLAG_INIT_END
            op, arg = ops[i], ops[i + 1]
            i += 2
            case op
            when :FLAG_INIT then out.concat(ops[i, arg]); i += arg
            when :FLAG_INIT_SKIP then arg.times { out << nil }
            when :FLAG_INIT_REPEAT
                e, n = walk_init(ops[i..-1], false)
                i += n
                arg.times { out.concat(e) }
            when :FLAG_INIT_CONTAINER then out << arg; (arg.size - 1).times { out << :more }
            else @c.fail('init-form', "unknown operation #{op.inspect}")
            end
        end
        @c.ck(top ? i == ops.size : ops[i] == :FLAG_INIT_END, 'init-form', "blocks are not closed")
        [out, i + 1]
    end
    def check_cover(s, got, merge, where)
        want = map_of(s)
        full = want.sub(/[.o]*\z/, '').size
        @c.ck(got.size <= want.size && got.size >= full, 'layout-size') { "#{where}: the layout covers #{got.size} bytes of #{want}" }
        got.each_char.with_index do |g, i|
            ok = case want[i]
                 when 'd', '*' then g == 'M'
                 when 'c' then g == 'C'
                 else merge ? g != 'C' : g == 'S'
                 end
            @c.ck(ok, 'layout-bytes') { "#{where}: byte #{i} is #{g} in the layout of #{want}: #{got}" }
        end
    end
    def check_layouts(s)
        t = s.type
        all = map_of(s) + nested(s)
        16.times do |f|
            ptr, opq, merge, trim = 4.times.map { |i| f[i] == 1 }
            opts = {}
            opts[:accept_pointers] = ptr if ptr || @r.chance(1, 2)
            opts[:accept_opaques] = opq if opq || @r.chance(1, 2)
            opts[:merge_skip_copy] = merge if !merge || @r.chance(1, 2)
            opts[:remove_trailing_skips] = trim if !trim || @r.chance(1, 2)
            layout = nil
            e = raised { layout = t.memory_layout(opts) }
            refused = (!ptr && all.include?('*')) || (!opq && all.include?('o'))
            @c.ck(e ? e.kind_of?(ArgumentError) && refused : !refused, 'layout-refused') { "memory_layout(#{opts}) of #{s}: #{e.inspect}" }
            @c.count('layouts')
            next if e
            @c.ck(layout.kind_of?(Array) && layout.size == 2, 'layout-form') { "memory_layout gives #{layout.inspect}" }
            got, conts, = walk(layout[0], true)
            where = "memory_layout(#{opts}) of #{s}"
            check_cover(s, got, merge, where)
            @c.ck(!trim || layout[0][-2] != :FLAG_SKIP, 'layout-trailing') { "#{where} ends with padding: #{got}" }
            @c.ck(trim || got.size == s.size, 'layout-size') { "#{where} covers #{got.size} bytes" }
            check_containers(s, conts, merge, where)
            init, = walk_init(layout[1], true)
            @c.ck(init.size <= s.size, 'init-size') { "#{where} initializes #{init.size} bytes of #{s.size}" }
            want = [nil] * s.size
            parts(s, [:string, :vector]).each { |o, p| want[o, p.size] = [p.type] + [:more] * (p.size - 1) }
            first = {}
            parts(s, [:enum]).each { |o, p| first[o] = p }
            init += [nil] * (s.size - init.size)
            first.each do |o, p|
                bytes = init[o, p.size]
                @c.ck(bytes.all? { |b| b.kind_of?(Integer) && (0..255) === b } && p.values.value?(bytes.pack('C*').unpack1('l')), 'init-enum') { "#{where}: the enum at #{o} is initialized with #{bytes.inspect}" }
                init[o, p.size] = [nil] * p.size
            end
            @c.ck(init.zip(want).all? { |a, b| a.equal?(b) || a == b }, 'init-bytes') { "#{where} initializes #{init.inspect} instead of #{want.inspect}" }
        end
        plain = !all.match?(/[c*o]/)
        if all.include?('d') || !plain
            @c.ck((t.compatible_with_memcpy? ? true : false) == plain, 'compatible') { "#{s} is #{'not ' if plain}said to be compatible with memcpy" }
        end
    end
    def check_containers(s, conts, merge, where)
        want = parts(s, [:string, :vector])
        @c.ck(conts.map { |o, t,| [o, t] }.sort_by(&:first) == want.map { |o, p| [o, p.type] }.sort_by(&:first), 'layout-containers') { "#{where} has containers #{conts.inspect}" }
        at = want.to_h
        conts.each do |o, _, e, sub|
            p = at[o]
            next @c.ck(e == 'M', 'layout-containers', "#{where}: elements of a string are #{e}") if p.kind == :string
            check_cover(p.elem, e, merge, "#{where}, elements at #{o}")
            check_containers(p.elem, sub, merge, where)
        end
    end

    # ---- views of memory
    def same(s, m, v) @s.same?(s, m, @s.ruby(v)) end
    def fill(s)
        m = @s.value(s)
        [Typelib.from_ruby(@s.given(s, m), s.type), m]
    end
    def set(s, v)
        m = @s.value(s)
        Typelib.copy(v, Typelib.from_ruby(@s.given(s, m), s.type))
        m
    end
    def check_memory(s, m, v, what)
        d = @s.memory_differs(s, m, v.to_memory_ptr.zone_address)
        @c.ck(d.nil?, 'memory') { "#{what} of #{s}: memory has #{d}" }
        @c.ck(v.respond_to?(:to_memory_ptr) && same(s, m, v), 'view') { "#{what} of #{s} does not show #{m.inspect}" }
    end
    def check_views(s)
        v, m = fill(s)
        @c.step("views of #{s}")
        check_memory(s, m, v, 'a new value') unless s.containers?
        addr = v.to_memory_ptr.zone_address
        ffi = Struct.new(:address).new(addr)
        views = Array.new(@r.range(1, 4)) do
            case @r.below(3)
            when 0 then s.type.from_address(addr)
            when 1 then s.type.from_ffi(ffi)
            else s.type.wrap(v.to_memory_ptr)
            end
        end
        views << v
        (1 + @r.below(4)).times do
            w = @r.pick(views)
            m = set(s, w)
            @c.ck(views.all? { |x| x.to_memory_ptr.zone_address == addr }, 'view-address', 'a view is elsewhere')
            # parts of containers obtained from one view do not follow what is done through another
            s.containers? ? check_memory(s, m, s.type.from_address(addr), 'a new view') : views.each { |x| check_memory(s, m, x, 'a view') }
            @c.ck(views.all? { |x| x == v && v == x }, 'view-equal', 'views of the same memory are not equal') if !s.containers?
            views.delete_at(@r.below(views.size - 1)) if views.size > 2 && @r.chance(1, 3)
            GC.start if @r.chance(1, 20)
        end
        views = w = nil
        check_memory(s, m, s.containers? ? s.type.from_address(addr) : v, 'what was viewed')
        d = @s.memory_differs(s, m, v.to_memory_ptr.zone_address)
        @c.ck(d.nil?, 'memory') { "what was viewed has #{d}" }
        @c.count('views')
        # strings: wrapped, their content is copied; as memory, they are what is viewed
        if !s.containers?
            m = @s.value(s)
            bytes = Typelib.from_ruby(@s.given(s, m), s.type).to_byte_array(merge_skip_copy: true, remove_trailing_skips: false)
            @c.ck(bytes.bytesize == s.size, 'plain-size') { "the bytes of #{s} are #{bytes.bytesize}" }
            str = bytes.dup
            w = s.type.wrap(str[0, s.type.new.to_byte_array.bytesize])
            check_memory(s, m, w, 'a wrapped string')
            z = s.type.from_memory_zone(str.to_memory_ptr)
            check_memory(s, m, z, 'a viewed string')
            m2 = set(s, z)
            other = s.type.from_memory_zone(str.dup.to_memory_ptr)
            check_memory(s, m2, z, 'a viewed string')
            check_memory(s, m2, other, 'a copy of a viewed string')
            check_memory(s, m, w, 'a wrapped string')
            GC.start if @r.chance(1, 20)
            set(s, other)
            check_memory(s, m2, z, 'a viewed string')
            @c.count('strings viewed')
        end
    end
    # ---- values made from nothing: initialized, or zeroed
    def zeroed?(s, v, padding)
        base = v.to_memory_ptr.zone_address
        want = map_of(s)
        mem = raw_memory(base, s.size).bytes
        enums = parts(s, [:enum])
        enums.each do |o, p|
            x = mem[o, p.size].pack('C*').unpack1('l')
            return "the enum at #{o} is #{x}" if !p.values.value?(x) && x != 0
            p.size.times { |i| want[o + i] = 'c' }
        end
        want.each_char.with_index { |l, i| return "byte #{i} (#{l}) is #{mem[i]}" if (l == 'd' || l == '.' && padding) && mem[i] != 0 }
        parts(s, [:string, :vector]).each do |o, p|
            a, b = raw_memory(base + o, 16).unpack('QQ')
            return "the container at #{o} is not empty" if p.kind == :string ? b != 0 : a != b
        end
        nil
    end
    def check_new(s)
        how = @r.below(5)
        # memory that is used again has other contents
        junk = Array.new(8) { 'x' * s.size + 'y' }
        junk = nil
        v = case how
            when 0 then s.type.zero
            when 1 then s.type.create(zero: true)
            when 2 then s.type.new.zero!
            else
                Typelib.zero_all_values = true
                begin how == 3 ? s.type.new : s.type.create
                ensure Typelib.zero_all_values = false
                end
            end
        d = zeroed?(s, v, how != 2)
        @c.ck(d.nil?, 'zero') { "zero value #{how} of #{s}: #{d}" }
        m = @s.value(s)
        v = @r.chance(1, 2) ? s.type.new(@s.given(s, m)) : s.type.create(init: @s.given(s, m))
        check_memory(s, m, v, 'an initialized value')
        w = s.type.create(zero: false)
        parts(s, [:enum]).each do |o, p|
            x = raw_memory(w.to_memory_ptr.zone_address + o, 4).unpack1('l')
            @c.ck(p.values.value?(x), 'new-enum') { "an enum of a new #{s} is #{x}" }
        end
        @c.count('made')
    end
    def check_sized(s)
        t = s.type
        @c.ck(t.natural_size == t.size, 'natural-size') { "natural_size of #{s} is #{t.natural_size}" }
        @c.ck(t.random_access? == true, 'random-access') { "#{s} is not random access" }
        n = @r.pick([0, 1, 2, 5, 40])
        m = @s.value(s.elem)
        e = @s.given(s.elem, m)
        e = Typelib.from_ruby(e, s.elem.type) if @r.chance(1, 2)
        v = t.of_size(n, e)
        check_memory(s, [m] * n, v, "of_size(#{n})")
        @c.ck(v.size == n, 'of-size') { "of_size(#{n}) of #{s} has #{v.size} elements" }
        @c.count('sized')
    end

    def special
        reg = @s.registry
        case @r.below(3)
        when 0
            @n = (@n || 0) + 1
            size = @r.range(1, 12)
            Shape.new(:opaque, reg.create_opaque("/op/O#{@n}", size))
        when 1 then Shape.new(:pointer, @s.leaf.type.to_ptr)
        else Shape.new(:pointer, @s.random(1).type.to_ptr)
        end
    end
    def run
        reg = Typelib::CXXRegistry.new
        @s = Shapes.new(reg, @r)
        shapes = Array.new(@r.range(1, 3)) { @s.random(3) }
        shapes << @s.vector(@s.random(2)) if @r.chance(1, 2)
        shapes.each do |s|
            @c.desc("type #{s}")
            check_layouts(s)
            check_views(s)
            check_new(s)
            check_sized(s) if s.kind == :vector
            check_handler(s)
            note(s)
        end
        # types with pointers and opaques are only described
        odd = special
        inner = @r.range(0, 3).times.inject(odd) do |o, i|
            case @r.below(3)
            when 0 then @s.struct(@r.shuffle([['a', @s.leaf], ['b', o], ['c', @s.leaf]]).to_h)
            when 1 then Shape.new(:array, reg.create_array(o.type, n = @r.range(1, 3)), elem: o, length: n)
            else o.kind == :struct ? Shape.new(:vector, reg.create_container('/std/vector', o.type), elem: o) : @s.struct('x' => o, 'y' => @s.leaf)
            end
        end
        @c.desc("type #{inner}")
        check_layouts(inner)
        check_handler(inner)
        note(inner)
    end
    def note(s)
        if (map_of(s) + nested(s)).match?(/[.c*o]/)
            @c.sig("#{s.to_s.gsub(/\d+/, '')} #{map_of(s)}")
            @c.sample(s.to_s)
        end
    end
    # values that are text as far as C is concerned
    def check_handler(s)
        char = @s.registry.get('/char')
        return if s.kind == :opaque
        v = nil
        return if raised { v = s.type.new }
        return unless v.respond_to?(:string_handler?)
        want = [:chars, :array, :pointer].include?(s.kind) && s.type.deference == char
        @c.ck(v.string_handler? == want, 'string-handler') { "string_handler? of #{s} is #{v.string_handler?}" }
    end
end
Core.main(RULE, Case)
