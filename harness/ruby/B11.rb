require_relative 'shapes'
require 'pp'
RULE = "each case builds the same nested types twice, with ordinary field names and with names that are also names of methods of the bindings, of every object or of each other's accessors, or words of the language; " \
       "the same history of operations runs on a value of each, and every result must be the same except for the names. Non-trivial: a structure with two fields or more; distinct by type and names."

class Case
    def self.setup(ctx)
        @@methods = Typelib::CompoundType.instance_methods.map(&:to_s).grep(/\A[a-zA-Z]\w*\z/).sort
        @@private = Typelib::CompoundType.private_instance_methods.map(&:to_s).grep(/\A[a-zA-Z]\w*\z/).sort
        Typelib.warn_about_helper_method_clashes = false
        # the variables in which values keep their state, with and without a prefix
        reg = Typelib::CXXRegistry.new
        reg.create_container('/std/vector', '/int')
        t = reg.create_compound('/S') { |b| b.add 'x', reg.create_compound('/In') { |i| i.add 'y', '/int' }; b.add 'v', '/std/vector</int>' }
        @@state = [:itself, :freeze, :invalidate].flat_map do |m|
            v = t.new
            parts = [v.raw_get('v'), v.raw_get('x'), v]
            parts.each { |x| x.public_send(m) unless m == :invalidate && x.equal?(v) }
            parts.flat_map do |x|
                x.instance_variables.flat_map { |i| w = i.to_s.delete('@').split('_').reject(&:empty?); w.each_index.map { |k| w.drop(k).join('_') } }
            end
        end.uniq
        @@state.select! { |n| n =~ /\A[a-zA-Z]\w*\z/ }
        # values of this type convert to a class of their own
        klass = Struct.new(:type, :bytes)
        Typelib.convert_to_ruby(/\/Conv\d+$/, klass) { |v| klass.new(v.class.name, v.to_byte_array) }
        Typelib.convert_from_ruby(klass, /\/Conv\d+$/) { |k, t| t.from_buffer(k.bytes) }
        @@klass = klass
    end
    WORDS = %w{end begin next module def alias yield in self nil ensure rescue super undef unless until when elsif then not and or redo retry case do else if}
    COMMON = %w{size length name type id value values first last count map to_a to_h each index parent key keys data offset fields call sum min max zip filter select reject sort include}
    # the names given to the fields instead of Shapes::NAMES
    def names(n)
        r = []
        while r.size < n
            x = case @r.below(9)
                when 0..1 then @r.pick(@@methods)
                when 2 then @r.pick(@@private)
                when 3 then @r.pick(WORDS)
                when 8 then @r.pick(@@state)
                when 4 then @r.pick(COMMON)
                when 5 then @r.pick(%w{send dup clone freeze enum_for invalidate raw_get raw_set get set fields object_id hash method instance_variable_get instance_variable_set inspect to_s})
                when 6 then r.empty? ? 'raw_x' : "raw_#{@r.pick(r)}"
                else r.empty? ? 'value' : @r.pick(r).sub(/^raw_/, '')
                end
            # always private; what Ruby itself calls on any object; and what could be the contents of a random string
            next if x.size < 3 || x =~ /\Ainitialize|\A__|\Arespond_to_missing|\Amethod_missing|\Ato_str\z|\Ato_ary\z/ || r.include?(x)
            r << x
        end
        r
    end

    class Named < Shapes
        def initialize(registry, rng, names) super(registry, rng); @names = names end
        def random_struct(depth)
            names = @rng.shuffle(@names).first(@rng.range(1, @names.size))
            struct(names.map { |n| [n, random(depth - 1)] }.to_h)
        end
        def struct(fields) @conv = @rng.chance(1, 6); super end
        def fresh(p) super(@conv && p == 'C' ? 'Conv' : p) end
    end
    NEUTRAL = %w{field0 other1 third2 data0 pos_z kept7}

    # one of the two: the names, the types and the value
    Side = Struct.new(:sh, :shape, :model, :value, :names)
    def initialize(ctx); @c, @r = ctx, ctx.rng end

    # what something is, with names replaced by their numbers
    def canon(x, s)
        case x
        when Typelib::Type then [:value, x.class.name, x.to_byte_array]
        when Class then [:class, x.name]
        when Hash then x.map { |k, y| [canon(k, s), canon(y, s)] }
        when Array then x.map { |y| canon(y, s) }
        when @@klass then [:conv, x.type, x.bytes]
        when Struct then canon(x.to_a, s)
        when String then (i = s.names.index(x)) ? [:field, i] : x.b
        when Symbol then x
        when Float then [x].pack('d')
        when Integer, true, false, nil then x
        else [:object, x.class.name]
        end
    end
    # the name of an instance method that the bindings keep for themselves, or that every object has
    def taken?(n) @@methods.include?(n) || @@private.include?(n) && n.start_with?('initialize') end
    # is the accessor of this field sure to be there in both
    def accessor?(i) @sides.all? { |s| n = s.names[i]; [n, "#{n}=", "raw_#{n}", "raw_#{n}="].none? { |x| taken?(x) } } end
    def raw_accessor?(i) accessor?(i) && @sides.all? { |s| !s.names.include?("raw_#{s.names[i]}") && !taken?("raw_#{s.names[i]}") } end

    # runs the block for both, and compares what it gives
    def outcome(s)
        r = nil
        e = raised { r = yield(s) }
        e ? [:error, e.class.name, e] : [:ok, r]
    end
    def compare(key, what)
        @c.step(what)
        res = @sides.map { |s| outcome(s) { |x| yield(x) } }
        can = res.each_with_index.map { |r, i| r[0] == :error ? r[0, 2] : [:ok, canon(r[1], @sides[i])] }
        @c.ck(can[0] == can[1], key) do
            "#{what}: #{res[0][0] == :ok ? can[0].inspect : res[0][2].inspect} with ordinary names, #{res[1][0] == :ok ? can[1].inspect : res[1][2].inspect} with the names #{@sides[1].names.inspect}"
        end
        @c.count(res[0][0] == :ok ? 'operations' : 'errors')
        res.map(&:last)
    end

    def call(v, *args) Object.instance_method(:public_send).bind_call(v, *args) end

    # ---- places: lists of steps, fields by number
    def place
        s, steps = @sides[0].shape, []
        m = @sides[0].model
        loop do
            case s.kind
            when :struct
                break if !steps.empty? && @r.chance(1, 4)
                n = @r.pick(s.fields.keys)
                steps << [:field, NEUTRAL.index(n)]
                s, m = s.fields[n], m[n]
            when :array, :vector
                break if m.empty? || @r.chance(1, 4)
                i = @r.below(m.size)
                steps << [:elem, i]
                s, m = s.elem, m[i]
            else break
            end
        end
        [steps, s]
    end
    # the shape of the other side at the same place
    def shape_at(side, steps)
        s = side.shape
        steps.each { |k, i| s = k == :field ? s.fields[side.names[i]] : s.elem }
        s
    end
    def step_into(side, v, k, i, how)
        return how == :raw ? v.raw_get(i) : v[i] if k == :elem
        n = side.names[i]
        case how
        when :raw then v.raw_get(n)
        when :get then v.get(n)
        when :sym then v[n.to_sym]
        when :acc then accessor?(i) ? call(v, n) : v[n]
        when :rawacc then raw_accessor?(i) ? call(v, "raw_#{n}") : v.raw_get(n)
        else v[n]
        end
    end
    def way; @r.pick([:raw, :get, :sym, :acc, :acc, :rawacc, :index]) end
    def go(side, steps, ways)
        v = side.value
        steps.each_with_index do |(k, i), j|
            return v if v.kind_of?(@@klass) # not a value anymore
            v = step_into(side, v, k, i, ways[j])
        end
        v
    end
    # new values for this place, the same on each side
    def new_values(steps)
        seed = @r.next
        @sides.map do |s|
            sh = Named.new(s.sh.registry, Rng.new(seed), s.names)
            t = shape_at(s, steps)
            m = sh.value(t)
            [t, m, sh.given(t, m)]
        end
    end

    def read
        steps, = place
        ways = steps.map { way }
        compare("read", "read #{steps.map { |k, i| k == :field ? ".#{@sides[1].names[i]}" : "[#{i}]" }.join} by #{ways.join(',')}") { |s| go(s, steps, ways) }
    end
    def write
        steps, = place
        return if steps.empty?
        vals = new_values(steps)
        *up, (k, i) = steps
        ways = up.map { :raw }
        settle
        how = @r.pick([:index, :set, :acc, :raw, :value])
        compare("write", "write #{steps.map { |a, b| a == :field ? ".#{@sides[1].names[b]}" : "[#{b}]" }.join} by #{how}") do |s|
            v = go(s, up, ways)
            t, _, g = vals[@sides.index(s)]
            g = Typelib.from_ruby(g, t.type) if how == :value || how == :raw
            if k == :elem then v[i] = g
            else
                n = s.names[i]
                case how
                when :set then v.set(n, g)
                when :raw then v.raw_set(n, g)
                when :acc then accessor?(i) ? call(v, "#{n}=", g) : v[n] = g
                else v[n] = g
                end
            end
            nil
        end
        settle
        put(steps, vals)
    end
    # what is pending becomes part of the values
    def settle; @sides.each { |s| s.value.apply_changes_from_converted_types; s.value.invalidate_changes_from_converted_types } end
    def put(steps, vals)
        @sides.each_with_index do |s, j|
            *up, (k, i) = steps
            m = s.model
            up.each { |a, b| m = m[a == :field ? s.names[b] : b] }
            m[k == :field ? s.names[i] : i] = vals[j][1]
        end
    end
    # the model is right, whatever the names
    def contents
        settle
        @sides.each do |s|
            @c.step("contents (#{s.names.join(' ')})")
            d = Shapes.raw_differs(s.value, s.shape, s.model)
            @c.ck(!d, 'contents', "#{d} with the names #{s.names.inspect}")
            e = s.sh.memory_differs(s.shape, s.model, s.value.zone_address)
            @c.ck(!e, 'memory', "#{e} with the names #{s.names.inspect}")
        end
        @c.count('contents compared')
    end
    # a whole operation of a part of the value
    OPS = {
        'dup' => ->(v, s) { v.dup }, 'clone' => ->(v, s) { v.clone }, 'to_simple_value' => ->(v, s) { v.to_simple_value }, 'to_json_value' => ->(v, s) { v.to_json_value },
        'to_byte_array' => ->(v, s) { v.to_byte_array }, 'marshalling_size' => ->(v, s) { v.marshalling_size }, 'to_csv' => ->(v, s) { v.to_csv },
        'csv header' => ->(v, s) { v.class.to_csv('x').size - s.names.sum { |n| v.class.to_csv('x').scan(/[.\]]#{n}(?=[.\[ ]|\z)/).size * n.size } ; nil },
        'copy' => ->(v, s) { w = v.class.new; Typelib.copy(w, v); w }, 'from_buffer' => ->(v, s) { v.class.from_buffer(v.to_byte_array) },
        'endian_swap' => ->(v, s) { v.endian_swap.endian_swap }, 'compare' => ->(v, s) { [v == v.dup, Typelib.compare(v, v.dup)] }, 'cast' => ->(v, s) { v.cast(v.class) },
        'to_ruby' => ->(v, s) { Typelib.to_ruby(v) }, 'from_ruby' => ->(v, s) { Typelib.from_ruby(Typelib.to_ruby(v), v.class) },
        'description' => ->(v, s) { v.class.to_h(recursive: true, layout_info: true) }, 'address' => ->(v, s) { v.zone_address.class },
        'memory' => ->(v, s) { v.to_memory_ptr.size }, 'apply' => ->(v, s) { v.apply_changes_from_converted_types; v.invalidate_changes_from_converted_types; nil },
        'print' => ->(v, s) { PP.pp(v, +'').size > 2 }, 'inspect' => ->(v, s) { v.inspect.size > 2 }, 'typelib_to_ruby' => ->(v, s) { Typelib.to_ruby(v, v.class) },
        'new from simple' => ->(v, s) { v.class.new(v.to_simple_value) }, 'invalid' => ->(v, s) { v.kind_of?(Typelib::CompoundType) ? v['no such field'] : v.no_such_method },
        'refused' => ->(v, s) { v.kind_of?(Typelib::CompoundType) ? v[s.names.find { |n| v.class.has_field?(n) }] = Object.new : v[0] = Object.new },
        'pair' => ->(v, s) { t = v.class.registry.create_container('/std/vector', v.class); c = t.new; c.push(v.dup); c.push(c[0]); c.to_byte_array },
        'pointer' => ->(v, s) { v.to_ptr.deference },
        'marshal' => ->(v, s) { v.class.from_buffer(v.dup.to_byte_array(accept_pointers: false)) },
        'zero' => ->(v, s) { w = v.dup; w.zero!; w }, 'hash' => ->(v, s) { Hash[v.object_id, 1].size },
        'fields' => ->(v, s) { v.kind_of?(Typelib::CompoundType) ? [v.class.fields, v.class.each_field.to_a, v.each_field.to_a, v.raw_each_field.map { |a, b| [a, b] }] : v.to_a },
        'field types' => ->(v, s) { v.kind_of?(Typelib::CompoundType) ? s.names.map { |n| [v.has_field?(n), v.class.has_field?(n), v.class.has_field?(n) && [v.class[n], v.class.offset_of(n), v.class.field_metadata[n].empty?]] } : nil },
        'accessor' => ->(v, s) { Typelib::Accessor.find_in_type(v.class) { |t| t <= Typelib::NumericType }.each(v).map { |x| Typelib.to_ruby(x) } },
        'minimal' => ->(v, s) { v.class.minimal_registry.get(v.class.name) == v.class },
        'freeze' => ->(v, s) { w = v.dup; w.freeze; [w.frozen?, (w.raw_each_field.map { |_, x| x.frozen? } if w.kind_of?(Typelib::CompoundType)), (w[s.names.find { |n| w.class.has_field?(n) }] = 0 if w.kind_of?(Typelib::CompoundType))] },
    }
    # what objects themselves have is the field's when there is such a field
    OWN = { 'inspect' => 'inspect', 'hash' => 'object_id', 'print' => 'pretty_print' }
    def operation
        steps, s = place
        k = @r.pick(OPS.keys)
        return if ![:struct, :array, :vector].include?(s.kind)
        ways = steps.map { :raw }
        settle
        if (n = OWN[k]) && @sides[1].names.include?(n)
            return
        end
        compare(k.tr(" ", "-"), "#{k} of #{steps.map { |a, b| a == :field ? ".#{@sides[1].names[b]}" : "[#{b}]" }.join}") { |x| OPS[k][go(x, steps, ways), x] }
        @c.count("op #{k}")
    end

    def run
        seed, depth = @r.next, @r.range(1, 3)
        clash = names(NEUTRAL.size)
        @sides = [NEUTRAL, clash].map do |names|
            reg = Typelib::CXXRegistry.new
            rng = Rng.new(seed)
            sh = Named.new(reg, rng, names)
            s = sh.random_struct(depth)
            m = sh.value(s)
            Side.new(sh, s, m, s.type.new(sh.given(s, m)), names)
        end
        @c.desc("#{@sides[1].shape} #{@sides[1].model.inspect}")
        @r.range(5, @c.thorough ? 30 : 14).times do
            case @r.below(8)
            when 0..2 then read
            when 3..4 then write
            when 5..6 then operation
            when 7 then contents
            end
        end
        contents
        @c.sig("#{@sides[1].shape} #{clash}") if @sides[0].shape.fields.size > 1
        @c.sample("#{@sides[1].shape}")
    end
end
Core.main(RULE, Case)
