require_relative 'shapes'
RULE = "each case builds nested types, with pointers and opaques for descriptions, and a value; descriptions, plain and JSON forms with every combination of their options, packed arrays, marshalled forms with and without " \
       "padding, and the values found by accessors and paths are compared with a model of the type and of the value, or decoded back. Non-trivial: the type is nested; distinct by type and value."

class Case
    def initialize(ctx); @c, @r = ctx, ctx.rng end

    # ---- descriptions of types
    KIND = { int: 'Numeric', float: 'Numeric', bool: 'Numeric', enum: 'Enum', struct: 'Compound', array: 'Array', chars: 'Array', vector: 'Container', string: 'Container', pointer: 'Pointer', opaque: 'Opaque' }
    def minimal(s, o)
        r = { name: s.name, class: "Typelib::#{KIND[s.kind]}Type" }
        r[:size] = s.size if o[:layout_info]
        r
    end
    def inner(s, o) o[:recursive] ? description(s, o) : minimal(s, o) end
    def description(s, o)
        r = minimal(s, o)
        case s.kind
        when :int then r.update(size: s.size, integer: true, unsigned: !s.signed)
        when :bool then r.update(size: s.size, integer: true, unsigned: true)
        when :float then r.update(size: s.size, integer: false)
        when :enum then r.update(values: s.values.map { |n, v| { name: n.to_s, value: v } })
        when :array then r.update(length: s.length, element: inner(s.elem, o))
        when :chars then r.update(length: s.length, element: inner(@char, o))
        when :vector then r.update(element: inner(s.elem, o))
        when :string then r.update(element: inner(@char, o))
        when :struct
            r.update(fields: s.fields.map do |f, t|
                x = { name: f, type: inner(t, o) }
                x[:offset] = s.offsets[f] if o[:layout_info]
                x
            end)
        end
        r
    end
    # enum values have no order
    def normal(d)
        case d
        when Hash then d.map { |k, x| [k, k == :values ? x.map { |e| normal(e) }.sort_by { |e| e[:name] } : normal(x)] }.to_h
        when Array then d.map { |x| normal(x) }
        when String then d.b
        else d
        end
    end
    def describe(s)
        o = {}
        o[:recursive] = @r.chance(2, 3) if @r.chance(3, 4)
        o[:layout_info] = @r.chance(2, 3) if @r.chance(3, 4)
        got = s.type.to_h(o)
        @c.ck(normal(got) == normal(description(s, o)), 'to_h') { "to_h(#{o}) returned #{got.inspect} instead of #{description(s, o).inspect}" }
        m = s.type.to_h_minimal(o)
        @c.ck(normal(m) == normal(minimal(s, o)), 'to_h_minimal') { "to_h_minimal(#{o}) returned #{m.inspect}" }
        JSON.generate(normal(got))
        @c.count('descriptions')
    end

    # ---- plain forms of values
    def special(x, how)
        return x if x.finite? || !how
        how == :nil ? nil : x.nan? ? 'NaN' : x > 0 ? 'Infinity' : '-Infinity'
    end
    # whether what to_simple_value returned is this value, with these options
    def plain?(s, m, got, o)
        case s.kind
        when :int then got.equal?(m) || (got.class == m.class && got == m)
        when :float
            e = special(m, o[:special_float_values])
            e.kind_of?(Float) ? Shapes.same_scalar?(s, e, got) : e == got
        when :bool then got == m
        when :enum then got == m.to_s
        when :string then got.kind_of?(String) && got.b == m
        when :chars then packed?(@char, (m + "\0" * s.length)[0, s.length].unpack('c*'), got, o, m)
        when :array, :vector then packed?(s.elem, m, got, o, nil)
        when :struct then got.kind_of?(Hash) && got.keys == s.fields.keys && m.all? { |f, x| plain?(s.fields[f], x, got[f], o) }
        end
    end
    CODES = { [1, false] => 'C', [1, true] => 'c', [2, false] => 'S<', [2, true] => 's<', [4, false] => 'L<', [4, true] => 'l<', [8, false] => 'Q<', [8, true] => 'q<', 4.0 => 'e', 8.0 => 'E' }
    def packed?(e, m, got, o, text)
        if o[:pack_simple_arrays] && [:int, :float, :bool].include?(e.kind)
            return unless got.kind_of?(Hash) && got.keys.sort == [:data, :pack_code, :size] && got[:size] == m.size
            code = e.kind == :float ? CODES[e.size.to_f] : CODES[[e.size, e.kind == :int && e.signed]]
            return unless got[:pack_code] == code
            data = got[:data].unpack1('m0')
            return unless data.size == m.size * e.size
            @c.count('packed arrays')
            xs = data.unpack("#{got[:pack_code]}*")
            return xs.take_while { |x| x != 0 } == text.unpack('c*') if text
            xs.size == m.size && xs.each_with_index.all? { |x, i| e.kind == :bool ? (x != 0) == m[i] : Shapes.same_scalar?(e, m[i], x) }
        else
            return unless got.kind_of?(Array) && got.size == m.size
            return got.take_while { |x| x != 0 } == text.unpack('c*') if text
            m.each_index.all? { |i| plain?(e, m[i], got[i], o) }
        end
    end
    def plain_form(v, s, m)
        o = {}
        o[:special_float_values] = @r.pick([:nil, :string, nil]) if @r.chance(3, 4)
        o[:pack_simple_arrays] = @r.chance(1, 2) if @r.chance(3, 4)
        json = @r.chance(1, 3)
        @c.step("#{json ? 'to_json_value' : 'to_simple_value'} #{o}")
        got = json ? v.to_json_value(o) : v.to_simple_value(o)
        o = { special_float_values: :nil }.merge(o) if json
        @c.ck(plain?(s, m, got, o), json ? 'json' : 'simple') { "#{json ? 'to_json_value' : 'to_simple_value'}(#{o}) returned #{got.inspect} for #{m.inspect}" }
        if json && o[:special_float_values]
            text = JSON.generate([encodable(got)])
            @c.ck(JSON.parse(text)[0] == encodable(got), 'json-text', 'what is generated is not parsed back')
            @c.count('JSON texts')
        end
        if @r.chance(1, 10) && floats?(s) && !m.nil?
            e = raised { v.to_simple_value(special_float_values: @r.pick([:other, 3, 'nil'])) }
            @c.ck(e.kind_of?(ArgumentError) || (!e && !reached_floats?(s, m)), 'simple-option') { "an unknown treatment of special numbers #{e ? "raised #{e.class}" : 'was accepted'}" }
        end
        @c.count('plain forms')
    end
    def floats?(s)
        case s.kind
        when :float then true
        when :array, :vector then floats?(s.elem)
        when :struct then s.fields.values.any? { |t| floats?(t) }
        end
    end
    # is there a floating point number at all
    def reached_floats?(s, m)
        case s.kind
        when :float then true
        when :array, :vector then m.any? { |x| reached_floats?(s.elem, x) }
        when :struct then m.any? { |f, x| reached_floats?(s.fields[f], x) }
        end
    end
    # strings of bytes cannot be JSON
    def encodable(x)
        case x
        when Hash then x.map { |k, y| [k.to_s, encodable(y)] }.to_h
        when Array then x.map { |y| encodable(y) }
        when String then x.b.inspect
        else x
        end
    end

    # ---- marshalled forms
    # the bytes of a value without any padding
    def bytes(s, m)
        case s.kind
        when :int then [m].pack(Shapes::PACK[[s.size, s.signed]])
        when :float then [m].pack(s.size == 4 ? 'e' : 'E')
        when :bool then m ? "\1" : "\0"
        when :enum then [s.values[m]].pack('l')
        when :chars then m.b + "\0" * (s.length - m.size)
        when :string then [m.size].pack('Q') + m.b
        when :vector then [m.size].pack('Q') + m.map { |x| bytes(s.elem, x) }.join
        when :array then m.map { |x| bytes(s.elem, x) }.join
        when :struct then m.map { |f, x| bytes(s.fields[f], x) }.join
        end.b
    end
    # NaNs and what follows the end of character arrays may be anything
    def exact?(s, m)
        case s.kind
        when :float then !m.nan?
        when :chars then m.size == s.length - 1
        when :array, :vector then m.all? { |x| exact?(s.elem, x) }
        when :struct then m.all? { |f, x| exact?(s.fields[f], x) }
        else true
        end
    end
    def marshalled(v, s, m)
        o = {}
        [:accept_pointers, :accept_opaques, :merge_skip_copy, :remove_trailing_skips].each { |k| o[k] = @r.chance(1, 2) if @r.chance(1, 2) }
        @c.step("to_byte_array #{o}")
        b = v.to_byte_array(o)
        w = case @r.below(3)
            when 0 then s.type.from_buffer(b, o)
            when 1 then s.type.new.from_buffer(b, o)
            else
                x = s.type.new(@sh.given(s, @sh.value(s)))
                x.from_buffer_direct(b, o.fetch(:accept_pointers, false), o.fetch(:accept_opaques, false), o.fetch(:merge_skip_copy, true), o.fetch(:remove_trailing_skips, true))
                x
            end
        d = Shapes.raw_differs(w, s, m)
        @c.ck(!d, 'marshalled') { "reloaded from the form with options #{o}: #{d}" }
        if o[:merge_skip_copy] == false
            e = bytes(s, m)
            @c.ck(b.size == e.size, 'packed-size') { "#{b.size} bytes instead of #{e.size} without padding" }
            @c.ck(b == e, 'packed-bytes') { "#{b.unpack1('H*')} instead of #{e.unpack1('H*')}" } if exact?(s, m)
            @c.count('forms without padding')
        end
        # bytes are missing
        if !b.empty? && @r.chance(1, 4)
            e = raised { s.type.from_buffer(b[0, @r.below(b.size)], o) }
            @c.ck(e.kind_of?(ArgumentError), 'short') { "bytes that are missing #{e ? "raised #{e.class}" : 'were accepted'}" }
        end
        @c.count('marshalled forms')
    end

    # ---- accessors and paths
    # all values in it, with what they should be, in order of the depth
    def each_part(s, m, depth = 0, &block)
        yield s, m, depth
        case s.kind
        when :struct then s.fields.each { |f, t| each_part(t, m[f], depth + 1, &block) }
        when :array, :vector then m.each { |x| each_part(s.elem, x, depth + 1, &block) }
        end
    end
    def accessors(v, s, m)
        all = []
        each_part(s, m) { |t, x, d| all << [t, x, d] }
        t = @r.pick(all)[0]
        cond = case @r.below(4)
               when 0 then n = t.name; lambda { |x| x.name == n }
               when 1 then k = t.size; lambda { |x| x.size == k }
               when 2 then lambda { |x| x <= Typelib::CompoundType }
               else c = t.type; lambda { |x| x == c || x <= Typelib::EnumType }
               end
        @c.step("accessor of what is like #{t}")
        # of the shapes, the elements of strings included
        expected = all.select { |x, _, _| cond.call(x.type) }
        text = all.select { |x, _, _| [:string, :chars].include?(x.kind) && cond.call(@char.type) }
        v.apply_changes_from_converted_types
        v.invalidate_changes_from_converted_types
        a = Typelib::Accessor.find_in_type(s.type, &cond)
        got = @r.chance(1, 2) ? a.each(v).to_a : a.to_enum(:each, v).map { |x| x }
        chars, got = got.partition { |x| x.class.name == @char.name && !all.any? { |y, _, _| y.name == @char.name } } unless text.empty?
        if !text.empty?
            n = text.map { |x, mm, _| x.kind == :chars ? x.length : mm.size }.sum
            # the characters that belong to texts cannot be told from numbers of the same type
            if all.any? { |y, _, _| y.name == @char.name } then return
            else @c.ck(chars.size == n, 'accessor-chars') { "#{chars.size} characters found instead of #{n}" }
            end
        end
        @c.ck(got.size == expected.size, 'accessor-size') { "an accessor found #{got.map { |x| x.class.name }} instead of #{expected.map { |x, _, _| x.name }}" }
        # in the order of the paths, which are sorted by length only
        by_depth = expected.group_by { |_, _, d| d }.sort.map(&:last)
        got.each { |x| @c.ck(expected.any? { |y, mm, _| y.type == x.class && y.name == x.class.name && !Shapes.raw_differs(x, y, mm) }, 'accessor-value') { "an accessor found a #{x.class.name} #{x.to_simple_value.inspect rescue nil} that is none of what it looks for" } }
        rest = got.dup
        by_depth.each do |g|
            here = rest.shift(g.size)
            g.each do |y, mm, _|
                i = here.index { |x| y.name == x.class.name && !Shapes.raw_differs(x, y, mm) }
                @c.ck(i, 'accessor-missing') { "an accessor did not find #{mm.inspect}, a #{y}, or not among those of its depth" }
                here.delete_at(i)
            end
        end
        @c.count('accessed', got.size)
    end
    # by the getters that convert
    def converting_paths(v, s, m)
        all = []
        each_part(s, m) { |t, x, d| all << t }
        t = @r.pick(all)
        a = Typelib::Accessor.find_in_type(s.type, :get, :each) { |x| x.name == t.name }
        # what is converted is not looked into
        expected = []
        visit = lambda do |x, y|
            expected << [x, y] if x.name == t.name
            case x.kind
            when :struct then x.fields.each { |f, z| visit.call(z, y[f]) }
            when :array, :vector then y.each { |z| visit.call(x.elem, z) }
            end
        end
        visit.call(s, m)
        return if all.any? { |x| [:string, :chars].include?(x.kind) } && t.name == @char.name
        @c.step("converting accessor of #{t.name}")
        got = a.each(v).to_a
        @c.ck(got.size == expected.size, 'converting-size') { "an accessor found #{got.size} values of #{t.name} instead of #{expected.size}" }
        rest = got.dup
        expected.each do |x, y|
            i = rest.index { |z| @sh.same?(x, y, z.equal?(v) ? Typelib.to_ruby(z, z.class) : z) }
            @c.ck(i, 'converting-missing') { "an accessor did not find #{y.inspect} but #{rest.inspect}" }
            rest.delete_at(i)
        end
        @c.count('accessed with conversion', got.size)
    end
    def paths(v, s, m)
        # the path to one place, made from both ends and from parts
        steps, t, x = [], s, [m]
        while [:struct, :array, :vector].include?(t.kind) && @r.chance(5, 6)
            if t.kind == :struct
                f = @r.pick(t.fields.keys)
                steps << [:call, [:raw_get, f]]
                x = x.map { |y| y[f] }
                t = t.fields[f]
            elsif t.kind == :array && @r.chance(1, 2)
                i = @r.below(t.length)
                steps << [:call, [:raw_get, i]]
                x = x.map { |y| y[i] }
                t = t.elem
            else
                steps << [:iterate, [:raw_each]]
                x = x.flat_map { |y| y }
                t = t.elem
            end
        end
        k = @r.below(steps.size + 1)
        p = Typelib::Path.new([])
        q = Typelib::Path.new([])
        steps[0, k].reverse.each { |op, a| op == :call ? p.unshift_call(*a) : p.unshift_iterate(*a) }
        steps[k..-1].each { |op, a| op == :call ? q.push_call(*a) : q.push_iterate(*a) }
        path = p + q
        @c.ck(p.size == k && q.size == steps.size - k && p.elements == steps[0, k] && q.elements == steps[k..-1], 'path-parts') do
            "paths of #{k} and #{steps.size - k} steps have #{p.size} and #{q.size} once they have been joined"
        end
        copy = path.dup
        copy.push_call(:nothing)
        p.push_call(:nothing)
        q.push_iterate(:nothing)
        @c.step("path #{steps.inspect}")
        @c.ck(path.size == steps.size, 'path-size') { "a path has #{path.size} steps instead of #{steps.size}" }
        v.apply_changes_from_converted_types
        v.invalidate_changes_from_converted_types
        2.times do
            got = path.resolve(v)
            d = got.size == x.size ? x.each_index.map { |i| Shapes.raw_differs(got[i], t, x[i]) }.compact.first : "#{got.size} values instead of #{x.size}"
            @c.ck(!d, 'path') { "the path #{steps.inspect}: #{d}" }
        end
        @c.count('paths')
    end

    def run
        reg = Typelib::CXXRegistry.new
        @sh = Shapes.new(reg, @r)
        @char = Shape.new(:int, Typelib::CHAR_T, name: Typelib::CHAR_T.name, signed: true)
        @char = Shape.new(:int, reg.get('/char'), name: reg.get('/char').name, signed: true)
        depth = @r.range(1, 3)
        s = @r.chance(1, 8) ? @sh.random(0) : @sh.random(depth)
        m = @sh.value(s)
        @c.desc("#{s} #{m.inspect}")
        v = s.type.new(@sh.given(s, m))
        @r.range(3, @c.thorough ? 16 : 8).times do
            case @r.below(8)
            when 0 then describe(s)
            when 1 then describe(odd(reg, s))
            when 2..3 then plain_form(v, s, m)
            when 4 then marshalled(v, s, m)
            when 5 then accessors(v, s, m)
            when 6 then paths(v, s, m)
            when 7 then converting_paths(v, s, m)
            end
        end
        @c.sig("#{s} #{m}") if [:struct, :array, :vector].include?(s.kind)
        @c.sample("#{s} = #{m.inspect}")
    end
    # types that values cannot be made plain for
    def odd(reg, s)
        p = Shape.new(:pointer, reg.build(s.name + '*'))
        o = Shape.new(:opaque, reg.create_opaque(@sh.fresh('O'), @r.range(0, 40)))
        values = Array.new(@r.range(1, 5)) { |i| ["S#{i}", @r.pick([0, 1, -1, i])] }.to_h
        synonyms = Shape.new(:enum, reg.create_enum(@sh.fresh('Syn')) { |b| values.each { |n, v| b.add(n, v) } }, values: values)
        e = @r.pick([p, p, o, synonyms])
        case @r.below(3)
        when 0 then e
        when 1 then Shape.new(:array, reg.create_array(e.type, 3), elem: e, length: 3)
        else @sh.struct({ 'a' => s, 'b' => e })
        end
    end
end
Core.main(RULE, Case)
