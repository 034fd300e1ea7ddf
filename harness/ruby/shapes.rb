# Random types built through the bindings, with a model of their values in plain Ruby objects:
# integers, floats, true/false, enum symbols, binary strings, arrays, and hashes for structures.
require_relative 'core'

class Shape
    attr_reader :kind, :type, :size, :elem, :length, :fields, :offsets, :values, :signed
    def initialize(kind, type, **attr)
        @kind, @type, @size = kind, type, type.size
        attr.each { |k, v| instance_variable_set("@#{k}", v) }
    end
    def name; @name || type.name end
    # the same description, that does not keep anything of the bindings alive
    def detached
        r = dup
        r.instance_eval do
            @name, @type = type.name.dup, nil
            @elem = @elem.detached if @elem
            @fields = @fields.map { |n, f| [n, f.detached] }.to_h if @fields
        end
        r
    end
    def scalar?; [:int, :float, :bool, :enum].include?(kind) end
    def numeric?; [:int, :float].include?(kind) end
    # is the value of a parent converted as a whole to Ruby objects because of this
    def converted?
        case kind
        when :bool, :string, :chars then true
        when :array, :vector then elem.converted?
        when :struct then fields.values.any?(&:converted?)
        end
    end
    def containers?
        case kind
        when :string, :vector then true
        when :array then elem.containers?
        when :struct then fields.values.any?(&:containers?)
        end
    end
    def to_s
        case kind
        when :struct then "#{name}{#{fields.map { |n, f| "#{n}@#{offsets[n]}:#{f}" }.join(",")}}"
        when :array then "#{elem}[#{length}]"
        when :vector then "vector<#{elem}>"
        when :chars then "char[#{length}]"
        else name
        end
    end
end

class Shapes
    INTS = { '/int8_t' => [1, true], '/uint8_t' => [1, false], '/int16_t' => [2, true], '/uint16_t' => [2, false],
             '/int32_t' => [4, true], '/uint32_t' => [4, false], '/int64_t' => [8, true], '/uint64_t' => [8, false] }
    PACK = { [1, true] => 'c', [1, false] => 'C', [2, true] => 's', [2, false] => 'S', [4, true] => 'l', [4, false] => 'L',
             [8, true] => 'q', [8, false] => 'Q' }
    attr_reader :registry, :rng
    def initialize(registry, rng)
        @registry, @rng, @n = registry, rng, 0
        @bool = Shape.new(:bool, registry.get('/bool'))
        @string = Shape.new(:string, registry.get('/std/string'))
    end
    def fresh(prefix); "/#{%w{a b/c d}[@rng.below(3)]}/#{prefix}#{@n += 1}" end

    def int(n = @rng.pick(INTS.keys))
        Shape.new(:int, registry.get(n), signed: INTS[n][1])
    end
    def float; Shape.new(:float, registry.get(@rng.chance(1, 2) ? '/float' : '/double')) end
    def bool; @bool end
    def string; @string end
    def enum
        size = @rng.pick([0, 0, 4])
        used = {}
        pairs = (1..@rng.range(1, 6)).map do |i|
            v = @rng.pick([@rng.range(-5, 5), @rng.range(-2**31, 2**31 - 1), 2**31 - 1, -2**31, i])
            next if used[v]
            used[v] = true
            ["#{%w{S sym _Val }[@rng.below(3)]}#{i}", v]
        end.compact
        t = registry.create_enum(fresh('E'), size) { |b| pairs.each { |n, v| b.add(n, v) } }
        Shape.new(:enum, t, values: pairs.map { |n, v| [n.to_sym, v] }.to_h)
    end
    def chars
        n = @rng.range(1, 12)
        Shape.new(:chars, registry.build("/char[#{n}]"), length: n)
    end
    def scalar
        case @rng.below(8)
        when 0..3 then int
        when 4..5 then float
        when 6 then bool
        else enum
        end
    end
    def array(e = leaf, n = @rng.range(1, 5))
        return Shape.new(:chars, registry.build("/char[#{n}]"), length: n) if e.name == '/int8_t'
        Shape.new(:array, registry.create_array(e.type, n), elem: e, length: n)
    end
    # vectors of booleans are not ordinary vectors in C++
    def vector(e = leaf)
        e = int('/uint8_t') if e.kind == :bool
        Shape.new(:vector, registry.create_container('/std/vector', e.type), elem: e)
    end
    def struct(fields)
        offsets, at = {}, 0
        fields.each { |n, f| at += @rng.pick([0, 0, 0, 1, 3, 4]); offsets[n] = at; at += f.size }
        size = @rng.chance(1, 3) ? at + @rng.range(0, 8) : 0
        size = 0 if size == at && at == 0
        t = registry.create_compound(fresh('C'), size) { |b| fields.each { |n, f| b.add(n, f.type, offsets[n]) } }
        Shape.new(:struct, t, fields: fields, offsets: offsets)
    end
    NAMES = %w{f0 x1 value y2 data0 pos_z Q k7 elements0 id_}
    def random_struct(depth)
        names = @rng.shuffle(NAMES).first(@rng.range(1, 5))
        struct(names.map { |n| [n, random(depth - 1)] }.to_h)
    end
    def leaf
        case @rng.below(10)
        when 0..6 then scalar
        when 7..8 then string
        else chars
        end
    end
    def random(depth)
        return leaf if depth <= 0
        case @rng.below(10)
        when 0..2 then leaf
        when 3..5 then random_struct(depth)
        when 6..7 then vector(random(depth - 1))
        else array(random(depth - 1), @rng.range(1, 4))
        end
    end

    # ---- values
    def int_value(s)
        bits = s.size * 8
        lo, hi = s.signed ? [-(1 << (bits - 1)), (1 << (bits - 1)) - 1] : [0, (1 << bits) - 1]
        case @rng.below(4)
        when 0 then @rng.pick([lo, hi, 0, 1, lo + 1, hi - 1, hi / 2, hi / 2 + 1])
        when 1 then [[@rng.range(-3, 100), lo].max, hi].min
        else lo + @rng.below(hi - lo + 1)
        end
    end
    SPECIAL = [0.0, -0.0, 1.0, -1.5, Float::INFINITY, -Float::INFINITY, Float::NAN, 3.4028234663852886e38, 1.401298464324817e-45, 5.0e-324, 1.7976931348623157e308]
    def float_value(s)
        v = case @rng.below(3)
            when 0 then @rng.pick(SPECIAL)
            when 1 then @rng.range(-1000000, 1000000) / 64.0
            else [@rng.next].pack('Q').unpack1('d')
            end
        v = Float::NAN if v.nan?
        return v if s.size == 8
        [v].pack('f').unpack1('f')
    end
    def value(s, n = nil)
        case s.kind
        when :int then int_value(s)
        when :float then float_value(s)
        when :bool then @rng.chance(1, 2)
        when :enum then @rng.pick(s.values.keys)
        when :string then text(n || @rng.pick([0, 1, 5, 15, 16, 40, 200]))
        when :chars then Array.new(@rng.below(s.length)) { 1 + @rng.below(127) }.pack('C*')
        when :array then Array.new(s.length) { value(s.elem) }
        when :vector then Array.new(n || @rng.pick([0, 1, 2, 3, 5, 9])) { value(s.elem) }
        when :struct then s.fields.map { |f, t| [f, value(t)] }.to_h
        end
    end
    def text(n)
        case @rng.below(3)
        when 0 then @rng.bytes(n)
        when 1 then Array.new(n) { 32 + @rng.below(95) }.pack('C*')
        else Array.new(n) { @rng.pick([0x41, 0xe9, 0x20ac, 0x1f600, 0]) }.pack('U*').b
        end
    end
    # a Ruby object that can be given to set a value of this kind to v
    def given(s, v)
        case s.kind
        when :int, :float, :bool then v
        when :enum
            case @rng.below(3)
            when 0 then v
            when 1 then v.to_s
            else s.values[v]
            end
        when :string then e = v.dup.force_encoding('UTF-8'); e.valid_encoding? ? e : v
        when :chars then v
        when :array, :vector then v.map { |x| given(s.elem, x) }
        when :struct
            if @rng.chance(1, 2) then v.map { |f, x| [@rng.chance(1, 2) ? f : f.to_sym, given(s.fields[f], x)] }.to_h
            else v.map { |f, x| given(s.fields[f], x) }
            end
        end
    end

    # ---- comparison of what the bindings return with the model
    def same?(s, model, got)
        case s.kind
        when :array, :vector
            return false unless got.respond_to?(:to_a)
            got = got.to_a
            got.size == model.size && model.each_with_index.all? { |m, i| same?(s.elem, m, ruby(got[i])) }
        when :struct
            got.kind_of?(Typelib::CompoundType) && s.fields.all? { |f, t| same?(t, model[f], got.get(f)) }
        else Shapes.same_scalar?(s, model, got)
        end
    end
    def ruby(v); v.kind_of?(Typelib::Type) ? v.to_ruby : v end
    # the documented form made of simple objects
    def simple(s, m)
        case s.kind
        when :enum then m.to_s
        when :array, :vector then m.map { |x| simple(s.elem, x) }
        when :struct then m.map { |f, x| [f, simple(s.fields[f], x)] }.to_h
        else m
        end
    end
    def simple_same?(s, m, got)
        case s.kind
        when :int then got.kind_of?(Integer) && got == m
        when :float then got.kind_of?(Float) && (m.nan? ? got.nan? : [got].pack('d') == [m].pack('d'))
        when :enum then got == m.to_s
        when :bool then got == m
        when :string then got.kind_of?(String) && got.b == m
        # character arrays are arrays of numbers there
        when :chars then got.kind_of?(String) ? got.b == m : (got.kind_of?(Array) && got.size == s.length && got.take_while { |c| c != 0 }.pack('c*') == m)
        when :array, :vector then got.kind_of?(Array) && got.size == m.size && m.each_index.all? { |i| simple_same?(s.elem, m[i], got[i]) }
        when :struct then got.kind_of?(Hash) && got.keys == s.fields.keys && m.all? { |f, x| simple_same?(s.fields[f], x, got[f]) }
        end
    end
    # ---- comparison with the memory itself, for the kinds whose representation is known; nil when it matches
    def memory_differs(s, m, address)
        mem = raw_memory(address, s.size)
        case s.kind
        when :int then mem == [m].pack(PACK[[s.size, s.signed]]) ? nil : "#{mem.unpack1('H*')} instead of #{m}"
        when :float
            got = mem.unpack1(s.size == 4 ? 'f' : 'd')
            (m.nan? ? got.nan? : mem == [m].pack(s.size == 4 ? 'f' : 'd')) ? nil : "#{got} instead of #{m}"
        when :bool then (mem.bytes.any? { |b| b != 0 }) == m ? nil : "#{mem.unpack1('H*')} instead of #{m}"
        when :enum then mem == [s.values[m]].pack('l') ? nil : "#{mem.unpack1('H*')} instead of #{m}"
        when :chars then mem.unpack1('Z*').b == m ? nil : "#{mem.inspect} instead of #{m.inspect}"
        when :string # libstdc++: pointer, length
            ptr, len = mem.unpack('QQ')
            len == m.size && (len == 0 || raw_memory(ptr, len) == m) && raw_memory(ptr + len, 1) == "\0" ? nil : "string of length #{len} instead of #{m.size}, or of other content"
        when :vector # begin, end, end of storage
            b, e, = mem.unpack('QQQ')
            return "#{e - b} bytes of elements instead of #{m.size} * #{s.elem.size}" if e - b != m.size * s.elem.size
            m.each_with_index { |x, i| r = memory_differs(s.elem, x, b + i * s.elem.size) and return "[#{i}]: #{r}" }
            nil
        when :array
            m.each_with_index { |x, i| r = memory_differs(s.elem, x, address + i * s.elem.size) and return "[#{i}]: #{r}" }
            nil
        when :struct
            m.each { |f, x| r = memory_differs(s.fields[f], x, address + s.offsets[f]) and return ".#{f}: #{r}" }
            nil
        end
    end
    # ---- comparison of what raw access returns, nil when it is the same; s may be detached
    def self.raw_differs(v, s, m)
        return "#{v.class} instead of a #{s}" unless s.type ? v.kind_of?(s.type) : v.kind_of?(Typelib::Type) && v.class.name == s.name
        case s.kind
        when :struct
            v.raw_each_field { |f, x| d = raw_differs(x, s.fields[f], m[f]) and return ".#{f}: #{d}" }
            nil
        when :array, :vector
            all = v.raw_each.to_a
            return "#{all.size} elements instead of #{m.size}" if all.size != m.size
            all.each_with_index { |x, i| d = raw_differs(x, s.elem, m[i]) and return "[#{i}]: #{d}" }
            nil
        else
            same_scalar?(s, m, v.to_ruby) ? nil : "#{v.to_ruby.inspect} instead of #{m.inspect}"
        end
    end
    def self.same_scalar?(s, model, got)
        case s.kind
        when :int then got.kind_of?(Integer) && got == model
        when :float then got.kind_of?(Float) && (model.nan? ? got.nan? : [got].pack('d') == [model].pack('d'))
        when :bool, :enum then got == model
        when :string, :chars then got.respond_to?(:to_str) && got.to_str.b == model
        end
    end
    def deep(v)
        case v
        when Hash then v.map { |k, x| [k, deep(x)] }.to_h
        when Array then v.map { |x| deep(x) }
        when String then v.dup
        else v
        end
    end
end
