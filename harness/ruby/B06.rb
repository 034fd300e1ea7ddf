require_relative 'shapes'
require 'timeout'
RULE = "each case makes values of random types, pointers, opaques and numbers of unusual sizes included, and calls random operations of the values, types, registries " \
       "and modules with arguments that fit and arguments of every wrong kind, on valid, invalidated and frozen values; each call has to return or raise an exception, " \
       "and what is not involved in it has to keep its content. Non-trivial: at least one call returned and one raised; distinct by calls."

class Case
    # direct access to memory, and internals of the bindings
    UNSAFE = /\A(do_|typelib_|__|handle_|value_new|from_address|from_memory_zone|from_ffi|from_buffer_direct|raw_memcpy|subclass_initialize|extend_for|initialize|convert_|find_custom|
               allocate|method_missing|custom_convertion_module|access_method_module|define_method|filter_methods|raw_get_no_boundary|get_no_boundary|pp_doc|freeze_children|invalidate|
               allocating_operation|protect|update_converted|superclass|moving_elements|element_t=|contains_converted|convertion|const_missing|apply_changes|contained_memory|set_hash\z|set_array\z|from_string\z|to_string\z)/x
    BASES = %w{Type IndirectType NumericType EnumType CompoundType ArrayType ContainerType PointerType OpaqueType}
    def self.setup(ctx)
        own = lambda { |mod, list| list.select { |m| mod.instance_method(m).source_location.to_s.include?('typelib') || mod.instance_method(m).owner.to_s =~ /Typelib/ } }
        @@instance = {}
        @@singleton = {}
        BASES.each do |b|
            k = Typelib.const_get(b)
            @@instance[k] = own[k, k.public_instance_methods].reject { |m| m =~ UNSAFE }.sort
            @@singleton[k] = own[k.singleton_class, k.singleton_class.public_instance_methods].reject { |m| m =~ UNSAFE || m =~ /[a-z]=\z/ }.sort
        end
    end
    def initialize(ctx); @c, @r = ctx, ctx.rng end

    def pointer(s)
        t = s.type.to_ptr
        Shape.new(:pointer, t, elem: s)
    end
    def opaque
        t = @sh.registry.create_opaque(@sh.fresh('O'), @r.range(1, 20))
        Shape.new(:opaque, t)
    end
    def odd
        t = @sh.registry.create_numeric(@sh.fresh('N'), @r.pick([3, 5, 6, 7, 16]), @r.pick([:sint, :uint, :float]))
        Shape.new(:odd, t)
    end
    def shape(depth)
        case @r.below(12)
        when 0 then pointer(shape(depth - 1))
        when 1 then opaque
        when 2 then @r.chance(1, 2) ? odd : pointer(Shape.new(:int, @sh.registry.get('/char')))
        when 3..5 then depth > 0 ? @sh.struct(%w{f0 x1 y2 z3}.first(@r.range(1, 4)).map { |n| [n, shape(depth - 1)] }.to_h) : @sh.leaf
        when 6 then depth > 0 ? array(shape(depth - 1)) : @sh.leaf
        when 7
            e = shape(depth - 1) if depth > 0
            e && e.type.size > 0 ? @sh.vector(e) : @sh.leaf
        else @sh.random([depth, 1].min)
        end
    end
    def array(e); @sh.array(e, @r.range(0, 3)) end

    def fill(s)
        v = nil
        raised { v = s.type.zero }
        raised { v = s.type.new(@sh.given(s, @sh.value(s))) } if plain?(s)
        v
    end
    def plain?(s)
        case s.kind
        when :pointer, :opaque, :odd then false
        when :struct then s.fields.values.all? { |f| plain?(f) }
        when :array, :vector then plain?(s.elem)
        else true
        end
    end

    def pointers?(s)
        case s.kind
        when :pointer then true
        when :struct then s.fields.values.any? { |f| pointers?(f) }
        when :array, :vector then pointers?(s.elem)
        end
    end

    def argument(s)
        case @r.below(16)
        when 0 then @r.pick([nil, true, false])
        when 1 then @r.pick([0, 1, -1, 2, 100, 2**31, 2**40, -2**63, 2**64, 2**80])
        when 2 then @r.pick([0.5, -1.0, Float::NAN, Float::INFINITY, 1e300])
        when 3 then @r.pick(["", "f0", "x1", "nothing", "S1", "a\0b", "x" * 300, "\xff".b, "\u00e9"])
        when 4 then @r.pick([:f0, :x1, :nothing, :S1, :to_s])
        when 5 then @r.pick([[], [1], [nil], ["a", 2], [[1], [2]], [1, 2, 3, 4]])
        when 6 then @r.pick([{}, { 'f0' => 1 }, { f0: nil }, { nothing: 3 }, { accept_pointers: true }, { accept_opaques: true, accept_pointers: true }, { merge_skip_copy: 3 }, { layout_info: true }, { recursive: true }, { pack_simple_arrays: true }])
        when 7 then @r.pick([Object.new, Object, Class, Comparable, 1..2, 0..-1, lambda { |x| x }])
        when 8..9 then @r.pick(@values)
        when 10 then @r.pick(@shapes).type
        when 11 then @r.pick([Typelib::Type, Typelib::CompoundType, Typelib::ArrayType, @sh.registry])
        when 12 then v = @r.pick(@values); (raised { v = v.to_byte_array(accept_pointers: true, accept_opaques: true) }; v)
        when 13 then @gone
        else plain?(s) ? @sh.given(s, @sh.value(s)) : fill(s)
        end
    end

    def part(v, s)
        3.times do
            break if @r.chance(1, 2)
            case s.kind
            when :struct
                f, t = @r.pick(s.fields.to_a)
                v, s = v.raw_get(f), t
            when :array, :vector
                n = v.size
                break if n == 0
                v, s = v.raw_get(@r.below(n)), s.elem
            else break
            end
        end
        [v, s]
    end

    # Indexes around the bounds of arrays and containers: the ones out of bounds are refused, and
    # what lies around the array keeps its content
    def bounds
        e = shape(1)
        return if e.type.size == 0
        n = @r.below(4)
        if @r.chance(1, 2)
            s = @sh.struct('g0' => @sh.array(@sh.int, 3), 'a' => @sh.array(e, n), 'g1' => @sh.array(@sh.int, 3))
            root = fill(s) or return
            %w{g0 g1}.each { |g| 3.times { |i| root.raw_get(g).raw_set(i, 1 + i) } }
            target = root.raw_get('a')
            ways = [:[], :[]=, :raw_get, :raw_set, :slice]
        else
            x = fill(e) or return
            target = fill(@sh.vector(e)) or return
            target.clear
            return if raised { n.times { target << x } }
            ways = [:[], :[]=, :get, :set, :raw_get, :raw_set, :slice]
        end
        value = fill(e)
        plain = plain?(e) ? @sh.given(e, @sh.value(e)) : value
        @r.range(2, 8).times do
            i = @r.range(-2, n + 1)
            m = @r.pick(ways)
            l = m == :slice ? @r.range(1, 3) : 1
            j = @r.chance(1, 8) ? i + @r.pick([-2**32, 2**32, 2**33]) : i
            @c.step("#{n} #{e}: #{m} #{j} #{l}")
            fits = j == i && i >= 0 && i + l <= n
            refused = raised do
                case m
                when :slice then target[j, l]
                when :[], :get, :raw_get then r = target.public_send(m, j); snapshot(r) if r.kind_of?(Typelib::Type); r.inspect
                when :[]=, :set then target.public_send(m, j, @r.chance(1, 2) ? plain : value)
                else target.raw_set(j, value)
                end
            end
            @c.count(refused ? 'indexes refused' : 'indexes accepted')
            @c.ck(fits || refused, "bounds-#{m}") { "#{m} with #{j}#{" and #{l}" if m == :slice} was accepted for #{n} elements of #{e}" }
            @c.ck(target.size == n, 'bounds-size') { "#{target.size} elements instead of #{n}" }
            %w{g0 g1}.each { |g| @c.ck(root.raw_get(g).to_a == [1, 2, 3], 'bounds-around') { "#{g} is #{root.raw_get(g).to_a} after #{m} #{j}" } } if root
        end
    end

    def operate
        s = @r.pick(@shapes)
        v = @values[@shapes.index(s)]
        case @r.below(12)
        when 10 then return registry_operation
        when 11
            target = s.type.metadata
            target = s.fields.empty? ? target : s.type.field_metadata[s.fields.keys.first] if s.kind == :struct && @r.chance(1, 2)
            ts = s
            m = @r.pick([:[], :[]=, :add, :clear, :delete, :each, :get, :include?, :keys, :pretty_print, :set])
        when 0..6
            return unless v
            target, ts = part(v, s)
            target = @gone if @r.chance(1, 12)
            kinds = @@instance[BASES.map { |b| Typelib.const_get(b) }.reverse.find { |k| target.kind_of?(k) }] || @@instance[Typelib::Type]
            # methods of fields and elements are not in the base
            kinds += (target.class.ancestors.take_while { |a| !@@instance[a] }.flat_map { |a| a.public_instance_methods(false) }).reject { |m| m =~ UNSAFE } if @r.chance(1, 2)
            kinds = [:dup, :clone, :==, :eql?, :hash, :inspect, :to_s, :frozen?, :freeze, :respond_to?] if @r.chance(1, 8)
            m = @r.pick(kinds)
        when 7..8
            target, ts = s.type, s
            m = @r.pick(@@singleton[BASES.map { |b| Typelib.const_get(b) }.reverse.find { |k| target <= k } || Typelib::Type])
        else
            target, ts = Typelib, s
            m = @r.pick([:copy, :compare, :to_ruby, :from_ruby, :basename, :namespace, :split_typename])
        end
        ar = (target.method(m).arity rescue 0)
        n = @r.chance(5, 6) ? (ar >= 0 ? ar : -ar - 1 + @r.below(2)) : @r.below(4)
        args = Array.new(n) { argument(ts) }
        args[0] = v if target.equal?(Typelib) && @r.chance(1, 2) && n > 0
        # a structure in itself
        args.map! { |a| a.equal?(v) || a.equal?(target) ? 0 : a } if m =~ /[^=!]=\z|set/
        # pointers are followed
        return if m == :to_csv && pointers?(ts)
        return if m == :create_null || args.any? { |a| a.kind_of?(Integer) && a.abs > 1000 } && m.to_s =~ /of_size|each|take|first|drop|cycle|min|max|resize/
        call(target, ts, v, m, args)
    end

    REGISTRY = %i{add alias aliases_of build clear_aliases create_array create_compound create_container create_enum create_null create_numeric create_opaque define_container
                  dup each get include? includes? merge merge_xml minimal remove remove_alias resize reverse_depends size source_id_of to_xml}
    NAMES = %w{/N /V /E /S /N[2] /N* /A N nothing /std/vector</N> /std/string /x/y /x/y/Z /x<>}
    # A registry whose types have no values
    def registry_operation
        @other ||= begin
            reg = Typelib::Registry.new
            n = reg.create_numeric('/N', 4, :sint)
            e = reg.create_enum('/E') { |x| x.A = 1; x.B }
            c = reg.create_compound('/S') { |x| x.a = '/N'; x.add 'b', '/E', 8 }
            reg.create_array('/N', 2)
            reg.define_container('/std/vector', n, 24)
            reg.create_null('/V')
            [reg, n, e, c]
        end
        target = @other[0]
        m = @r.pick(REGISTRY)
        ar = target.method(m).arity
        n = @r.chance(5, 6) ? (ar >= 0 ? ar : -ar - 1 + @r.below(3)) : @r.below(4)
        args = Array.new(n) do
            case @r.below(8)
            when 0..2 then @r.pick(NAMES)
            when 3..4 then @r.pick(@other)
            when 5 then @r.pick(['/std/vector', '/std/string', :sint, :float, '<typelib></typelib>', { '/N' => @r.below(9) }, { @other[1] => 2 }, Typelib::Registry.new, 4, 8])
            else argument(@r.pick(@shapes))
            end
        end
        names = @other[1..-1].map(&:name)
        call(target, @r.pick(@shapes), nil, m, args)
        @other[1..-1].each_with_index { |t, i| @c.ck(t.name == names[i], 'held') { "the name of a type changed" } }
    end

    def call(target, ts, v, m, args)
        before = @values.map { |x| !x || x.equal?(v) || args.any? { |a| a.equal?(x) } ? nil : snapshot(x) }
        count = 0
        block = @r.chance(1, 2) && !@c.thorough ? nil : lambda { |*x| 
            raise StopIteration if (count += 1) > 20
            # blocks that define types
            raised { x[0].add(*Array.new(@r.below(4)) { @r.chance(1, 2) ? @r.pick(NAMES) : argument(ts) }) } if target.kind_of?(Typelib::Registry) && m =~ /create/
            @r.chance(1, 3)
        }
        @c.step("#{target.kind_of?(Class) || target.equal?(Typelib) || !target.kind_of?(Typelib::Type) ? target : "#{ts}(#{target.equal?(@gone) ? 'invalidated' : 'value'})"}.#{m}(#{args.map { |a| show(a) }.join(', ')})#{' { }' if block}")
        result = nil
        e = raised { result = block ? target.public_send(m, *args, &block) : target.public_send(m, *args) }
        raised { result.first(50) if result.kind_of?(Enumerator) }
        @c.count(e ? "raised" : "returned")
        @c.count("#{e ? 'raised' : 'returned'}: #{e ? e.class : m}")
        @calls << "#{m}#{e ? '!' : ''}"
        @values.each_with_index do |x, i|
            next unless before[i]
            @c.ck(snapshot(x) == before[i], 'others') { "a value that is not involved changed" }
        end
    end
    def show(a)
        case a
        when Typelib::Type then "<value of #{a.class.name}>"
        when Typelib::Registry, Proc then a.class.to_s
        when Class then a.to_s
        else s = a.inspect; s.size > 80 ? s[0, 80] + '...' : s
        end
    end
    def snapshot(x)
        r = nil
        raised { r = x.to_byte_array(accept_pointers: true, accept_opaques: true, merge_skip_copy: false) }
        r
    end

    def run
        @c.desc('')
        @sh = Shapes.new(Typelib::CXXRegistry.new, @r)
        @shapes = Array.new(@r.range(2, 5)) { shape(@r.range(1, 2)) }
        @c.desc(@shapes.map(&:to_s).join(' '))
        @values = @shapes.map { |s| fill(s) }
        v = @sh.vector(@sh.struct('f0' => @sh.int, 'x1' => @sh.string))
        g = v.type.zero
        g.push({ 'f0' => 1, 'x1' => "text" }) rescue g.push(v.elem.type.new('f0' => 1, 'x1' => "text"))
        @gone = @r.chance(1, 2) ? g.raw_get(0) : g.raw_get(0).raw_get('x1')
        g.clear
        @r.pick(@values).freeze if @r.chance(1, 20)
        @calls = []
        bounds if @r.chance(1, 3)
        @r.range(5, 40).times { operate }
        @c.sig(@calls.join(' ')) if @calls.any? { |x| x =~ /!/ } && @calls.any? { |x| x !~ /!/ }
        @c.sample(@calls.join(' '))
        GC.start if @r.chance(1, 20)
    end
end
Core.main(RULE, Case)
