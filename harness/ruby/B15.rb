# B15: equality, comparison and casts of values from Ruby
require_relative 'shapes'
RULE = "one case = a value of a random type, compared in every way with 4 to 14 others: copies, values built again with other padding, from other registries, with one leaf changed, with changes " \
       "pending on either side, Ruby objects and values of types that differ in one place; then casts to equivalent and to different types, written through; every answer compared with the model; " \
       "distinct by type, value and kinds of others; non-trivial when values of at least one equal and one different content were compared"

class Case
    def initialize(c) @c, @r = c, c.rng end

    def run
        @s = Shapes.new(Typelib::CXXRegistry.new, @r)
        @s2 = Shapes.new(Typelib::CXXRegistry.new, @r)
        s = @r.chance(1, 3) ? @s.random(2) : @s.random_struct(@r.range(1, 3))
        m = value(s)
        @c.desc("type #{s}, value #{m.inspect}")
        v = build(s, m)
        @kinds = []
        @r.range(4, 14).times do
            case @r.below(12)
            when 0..2 then again(v, s, m)
            when 3..5 then changed(v, s, m)
            when 6 then other_registry(v, s, m)
            when 7 then v, m = pending(v, s, m)
            when 8 then objects(v, s, m)
            when 9..10 then different_type(v, s, m)
            else m = cast(v, s, m)
            end
            d = @s.memory_differs(s, m, v.to_memory_ptr.zone_address)
            @c.ck(d.nil?, 'changed') { "the value has #{d}" }
            @c.ck(@s.same?(s, m, @s.ruby(v)), 'changed') { "the value is #{v.to_simple_value.inspect} instead of #{m.inspect}" }
        end
        if @kinds.include?(:equal) && @kinds.include?(:different)
            @c.sig("#{s} #{m.inspect} #{@kinds}")
            @c.sample("#{s}: #{@kinds.uniq.join(' ')}")
        end
    end

    # character arrays are compared to the last byte
    def full(s, m)
        case s.kind
        when :chars then (m + 'x' * s.length)[0, s.length - 1]
        when :array, :vector then m.map { |x| full(s.elem, x) }
        when :struct then m.map { |f, x| [f, full(s.fields[f], x)] }.to_h
        else m
        end
    end
    def value(s) full(s, @s.value(s)) end
    def build(s, m, shapes = @s)
        v = Typelib.from_ruby(shapes.given(s, m), s.type)
        scribble(v, s)
        v
    end
    # offsets that belong to nothing
    def padding(s)
        case s.kind
        when :array then o = padding(s.elem); (0...s.length).flat_map { |i| o.map { |x| x + i * s.elem.size } }
        when :struct
            o = (0...s.size).to_a
            s.fields.each { |f, t| o -= (s.offsets[f]...s.offsets[f] + t.size).to_a }
            o + s.fields.flat_map { |f, t| padding(t).map { |x| x + s.offsets[f] } }
        else []
        end
    end
    def scribble(v, s)
        a = v.to_memory_ptr.zone_address
        o = padding(s)
        o.each { |x| Fiddle::Pointer.new(a + x)[0] = @r.below(256) }
        @c.count('padding bytes', o.size)
    end

    def equal?(s, a, b)
        case s.kind
        when :float then k = s.size == 4 ? 'f' : 'd'; [a].pack(k) == [b].pack(k)
        when :array, :vector then a.size == b.size && a.zip(b).all? { |x, y| equal?(s.elem, x, y) }
        when :struct then s.fields.all? { |f, t| equal?(t, a[f], b[f]) }
        else a == b
        end
    end
    # one leaf, or the size of one vector, changed
    def change(s, m)
        case s.kind
        when :array then i = @r.below(m.size); m = m.dup; m[i] = change(s.elem, m[i]); m
        when :vector
            m = m.dup
            if m.empty? || @r.chance(1, 4) then m.empty? || @r.chance(1, 2) ? m.push(value(s.elem)) : m.pop
            else i = @r.pick([0, m.size - 1, @r.below(m.size)]); m[i] = change(s.elem, m[i])
            end
            m
        when :struct then f = @r.pick(s.fields.keys); m.merge(f => change(s.fields[f], m[f]))
        when :int # one bit
            x = m ^ (1 << @r.below(s.size * 8 - 1))
            x
        when :bool then !m
        when :string
            return 'x' if m.empty?
            case @r.below(4)
            when 0 then m + "\0"
            when 1 then m[0...-1]
            else x = m.dup; i = @r.below(x.size); x.setbyte(i, x.getbyte(i) ^ (1 << @r.below(8))); x
            end
        else value(s)
        end
    end

    def compare(v, w, want, what)
        @kinds << (want ? :equal : :different)
        all = [['==', v == w], ['== the other way', w == v], ['!=', !(v != w)], ['compare', Typelib.compare(v, w)], ['compare the other way', Typelib.compare(w, v)]]
        all.each { |n, got| @c.ck(got == want, "equality-#{want}") { "#{what}: #{n} says #{got}" } }
        @c.count(want ? 'found equal' : 'found different', all.size)
    end

    def again(v, s, m)
        @c.step('the same again')
        @c.ck(v == v && Typelib.compare(v, v), 'equality-self', 'a value is not equal to itself')
        w = case @r.below(4)
            when 0 then v.dup
            when 1 then s.type.wrap(v.to_byte_array)
            when 2 then Typelib.copy(s.type.new, v)
            else build(s, m)
            end
        scribble(w, s) if @r.chance(1, 2)
        compare(v, w, true, 'the same content')
    end
    def changed(v, s, m)
        x = @r.chance(1, 6) ? value(s) : change(s, m)
        @c.step("compared with #{x.inspect}")
        w = build(s, x)
        compare(v, w, equal?(s, m, x), "#{m.inspect} and #{x.inspect}")
        # parts
        return unless s.kind == :struct
        f, fs = @r.pick(s.fields.to_a)
        compare(v.raw_get(f), w.raw_get(f), equal?(fs, m[f], x[f]), ".#{f}: #{m[f].inspect} and #{x[f].inspect}")
    end
    def other_registry(v, s, m)
        x = @r.chance(1, 2) ? m : change(s, m)
        s2 = rebuild(s)
        @c.step("compared with #{x.inspect} of another registry")
        w = build(s2, x, @s2)
        compare(v, w, equal?(s, m, x), "in another registry: #{m.inspect} and #{x.inspect}")
    end
    # changes that are pending on one side or the other
    def pending(v, s, m)
        return v, m unless s.kind == :struct
        f, fs = @r.pick(s.fields.to_a)
        w = build(s, m)
        x = full(fs, @r.chance(1, 2) ? change(fs, m[f]) : @s.value(fs))
        @c.step("pending .#{f} = #{x.inspect}")
        a, b = @r.chance(1, 2) ? [v, w] : [w, v]
        # read first, so that there is a converted value
        a.send(f) if @r.chance(1, 2)
        a.send("#{f}=", @s.given(fs, x))
        after = m.merge(f => x)
        same = equal?(s, m, after)
        case @r.below(3)
        when 0 then @c.ck((a == b) == same, 'pending') { "after .#{f} = #{x.inspect}: #{m.inspect} is #{'not ' if same}equal" }
        when 1 then @c.ck((b == a) == same, 'pending') { "after .#{f} = #{x.inspect}: #{m.inspect} is #{'not ' if same}equal" }
        else @c.ck(Typelib.compare(b, a) == same, 'pending') { "after .#{f} = #{x.inspect}: #{m.inspect} is #{'not ' if same}equal" }
        end
        compare(a, b, same, 'after a pending change')
        @c.count('pending changes')
        [v, a.equal?(v) ? after : m]
    end
    # Ruby objects
    def objects(v, s, m)
        p, q = v, s
        x = m
        2.times do
            break unless q.kind == :struct
            f, q2 = @r.pick(q.fields.to_a)
            p, q, x = p.raw_get(f), q2, x[f]
        end
        return unless [:int, :float, :bool, :enum, :string, :chars].include?(q.kind)
        y = @r.chance(1, 2) ? x : change(q, x)
        want = q.kind == :float ? x == y : x == y
        y = y.dup.force_encoding(p.to_ruby.encoding) if y.kind_of?(String)
        y = y.to_f if q.kind == :int && y.abs < 1 << 50 && @r.chance(1, 3)
        @c.step("compared with the object #{y.inspect}")
        @c.ck((p == y) == want, "object-#{want}") { "#{q} of #{x.inspect} == #{y.inspect} is #{p == y}" }
        @c.ck((p != y) == !want, "object-#{want}") { "#{q} of #{x.inspect} != #{y.inspect} is #{p != y}" }
        [nil, Object.new, 'other than that', :other_than_that, [], {}].each do |o|
            next if o == x
            @c.ck(!(p == o), 'object-other') { "#{q} of #{x.inspect} == #{o.inspect}" }
            @c.ck(!(v == o), 'object-other') { "#{s} == #{o.inspect}" } if s.kind == :struct
        end
        @kinds << :object
        @c.count('compared with objects')
    end

    # ---- the type in the other registry, with one difference at the node number @at (nil for none)
    def rebuild(s, at = nil)
        @at, @what = at, nil
        again_type(s, true)
    end
    def nodes(s)
        1 + case s.kind
            when :array, :vector then nodes(s.elem)
            when :struct then s.fields.values.sum { |f| nodes(f) }
            else 0
            end
    end
    def again_type(s, only_structs)
        here = @at == 0
        @at -= 1 if @at
        t = @s2
        case s.kind
        when :int
            n = Shapes::INTS.key([s.size, s.signed])
            n = @r.pick(Shapes::INTS.keys - [n, '/int8_t']) and @what = [:never, "#{s} -> #{n}"] if here
            t.int(n)
        when :float
            size = s.size
            size = 12 - size and @what = [:never, "a float of #{size} bytes"] if here
            Shape.new(:float, t.registry.get(size == 4 ? '/float' : '/double'))
        when :bool
            return t.int('/int16_t').tap { @what = [:never, 'bool -> /int16_t'] } if here
            t.bool
        when :string
            return t.vector(t.int('/int16_t')).tap { @what = [:never, 'string -> vector'] } if here
            t.string
        when :chars
            n = s.length
            n += 1 and @what = [:never, "#{s} -> #{n} characters"] if here
            Shape.new(:chars, t.registry.build("/char[#{n}]"), length: n)
        when :enum
            vs = s.values.dup
            if here
                if vs.size > 1 && @r.chance(1, 2)
                    vs.delete(vs.keys.first)
                    @what = [only_structs ? :to_only : :never, 'a symbol less']
                elsif @r.chance(1, 2)
                    k = vs.keys.first
                    vs[k] = (0..100).find { |x| !vs.value?(x) }
                    @what = [:never, "#{k} has another value"]
                else
                    vs[:additional] = (0..100).find { |x| !vs.value?(x) }
                    @what = [only_structs ? :from_only : :never, 'a symbol more']
                end
            end
            e = t.registry.create_enum(name(s), s.size) { |b| vs.each { |k, x| b.add(k.to_s, x) } }
            Shape.new(:enum, e, values: vs)
        when :array
            n = s.length
            n += 1 and @what = [:never, "#{s} -> #{n} elements"] if here
            e = again_type(s.elem, false)
            Shape.new(:array, t.registry.create_array(e.type, n), elem: e, length: n)
        when :vector
            e = again_type(s.elem, false)
            e = t.int('/int16_t') if here && e.name == '/int8_t'
            return Shape.new(:array, t.registry.create_array(e.type, 2), elem: e, length: 2).tap { @what = [:never, 'a vector -> an array'] } if here
            Shape.new(:vector, t.registry.create_container('/std/vector', e.type), elem: e)
        when :struct
            how = here ? @r.below(4) : nil
            fields = s.fields.map { |f, q| [f, again_type(q, only_structs)] }.to_h
            offsets = s.offsets.dup
            size = s.size
            case how
            when 0
                f = fields.keys.last
                offsets[f] += 1
                @what = [:never, ".#{f} is elsewhere"]
            when 1
                f = fields.keys.last
                fields["#{f}_"] = fields.delete(f)
                offsets["#{f}_"] = offsets.delete(f)
                @what = [:never, ".#{f} has another name"]
            when 2
                fields['more'] = t.int('/int8_t')
                offsets['more'] = size
                @what = [:never, 'a field more']
            when 3
                return t.int('/int16_t').tap { @what = [:never, 'a structure -> /int16_t'] } if s.size != 2
                @what = [:same, '']
            end
            # fields that have grown push the next ones
            at = 0
            fields.each { |f, q| offsets[f] = [at, offsets[f]].max; at = offsets[f] + q.size }
            size = [at, size].max
            c = t.registry.create_compound(name(s), size) { |b| fields.each { |f, q| b.add(f, q.type, offsets[f]) } }
            Shape.new(:struct, c, fields: fields, offsets: offsets)
        end
    end
    def name(s)
        return s.name if @r.chance(1, 2) && !@s2.registry.include?(s.name)
        @n2 = (@n2 || 0) + 1
        @r.chance(1, 2) ? "#{s.name}x#{@n2}" : "/other/T#{@n2}"
    end

    def different_type(v, s, m)
        s2 = rebuild(s, @r.below(nodes(s)))
        to, from = case @what && @what[0]
                   when :never then [false, false]
                   when :to_only then [false, true]      # from the smaller enum to the larger one
                   when :from_only then [true, false]
                   else return
                   end
        @c.step("compared with another type: #{s2} (#{@what[1]})")
        w = build(s2, x2 = full(s2, @s2.value(s2)), @s2)
        { [v, s.type, s2.type, w] => to, [w, s2.type, s.type, v] => from }.each do |(a, t, u, b), can|
            @c.ck((t.casts_to?(u) ? true : false) == can, 'casts-to') { "#{@what[1]}: #{t} casts to #{u}: #{!can}" }
            e = raised { a.cast(u) }
            @c.ck(can ? e.nil? : e.kind_of?(ArgumentError), 'cast-refused') { "#{@what[1]}: casting #{t} to #{u}: #{e.inspect}" }
            next if can
            # compare(x, y) and copy(x, y) are possible when y's type casts to that of x
            e = raised { Typelib.compare(b, a) }
            @c.ck(e.kind_of?(ArgumentError), 'compare-refused') { "#{@what[1]}: comparing #{u} with #{t}: #{e.inspect}" }
            e = raised { b == a }
            @c.ck(e.kind_of?(ArgumentError), 'compare-refused') { "#{@what[1]}: #{u} == #{t}: #{e.inspect}" }
            e = raised { Typelib.copy(b, a) }
            @c.ck(e.kind_of?(ArgumentError), 'copy-refused') { "#{@what[1]}: copying #{t} to #{u}: #{e.inspect}" }
        end
        @c.ck(@s2.same?(s2, x2, @s2.ruby(w)), 'refused-changed') { "after refusals, #{s2} is #{w.to_simple_value.inspect} instead of #{x2.inspect}" }
        @kinds << :refused
        @c.count('different types')
    end

    def cast(v, s, m)
        s2 = rebuild(s)
        @c.step("cast to #{s2}")
        @c.ck(s.type.casts_to?(s2.type) && s2.type.casts_to?(s.type), 'casts-to') { "#{s} does not cast to #{s2}" }
        @c.ck(v.cast(s.type).equal?(v), 'cast-self', 'a cast to its own type is another object')
        w = v.cast(s2.type)
        @c.ck(w.class.equal?(s2.type), 'cast-type') { "a cast to #{s2.type} is a #{w.class}" }
        @c.ck(w.to_memory_ptr.zone_address == v.to_memory_ptr.zone_address, 'cast-address', 'a cast is elsewhere')
        @c.ck(@s2.same?(s2, m, @s2.ruby(w)), 'cast') { "a cast is #{w.to_simple_value.inspect} instead of #{m.inspect}" }
        compare(v, w, true, 'a cast')
        @kinds << :cast
        @c.count('casts')
        return m unless s.kind == :struct && @r.chance(1, 2)
        # written through; parts of containers that are held do not follow
        f, fs = @r.pick(s.fields.to_a)
        return m if fs.containers?
        x = full(fs, @s.value(fs))
        v.apply_changes_from_converted_types
        v.invalidate_changes_from_converted_types
        @c.step("cast.#{f} = #{x.inspect}")
        w.set(f, @s2.given(s2.fields[f], x))
        m.merge(f => x)
    end
end
Core.main(RULE, Case)
