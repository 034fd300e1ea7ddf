require_relative 'shapes'
RULE = "each case builds a nested type (structures, arrays, vectors, strings, booleans and enums up to three levels deep) and applies a random history to a value of it: " \
       "assignments, container and Ruby array operations at any depth, copies, casts to an equivalent type of another registry, marshalling and reloading; after every step the whole value " \
       "is read and compared with a model, as is everything that was copied from it before. Non-trivial: at least three steps; distinct by type and history."

class Case
    def initialize(ctx); @c, @r = ctx, ctx.rng end

    # a Ruby object for an element or field of this type
    def give(s, m)
        g = @sh.given(s, m)
        case @r.below(6)
        when 0 then Typelib.from_ruby(g, s.type)
        when 1 then s.type.new(g)
        else g
        end
    end

    # a Ruby array does not convert what it is given
    def give_element(v, s, m)
        g = give(s, m)
        v.kind_of?(Array) && nested?(s) ? Typelib.to_ruby(Typelib.from_ruby(g, s.type)) : g
    end

    # ---- reading
    def read_all(v, s, m, what)
        how = @r.below(8)
        case how
        when 0
            v.apply_changes_from_converted_types
            d = @sh.memory_differs(s, m, v.zone_address)
            @c.ck(!d, "memory-#{what}") { "memory: #{d}" }
        when 1
            got = v.to_simple_value
            @c.ck(@sh.simple_same?(s, m, got), "simple-#{what}") { "to_simple_value returned #{got.inspect} instead of #{@sh.simple(s, m).inspect}" }
        when 2
            n = v.marshalling_size
            b = v.to_byte_array
            w = s.type.wrap(b)
            @c.ck(@sh.same?(s, m, @sh.ruby(w)), "marshalled-#{what}") { "marshalled and reloaded: #{w.to_simple_value.inspect} instead of #{@sh.simple(s, m).inspect}" }
            @c.ck(n == b.size, "marshalling-size") { "marshalling_size is #{n}, the marshalled form has #{b.size} bytes" }
        when 3
            w = v.dup
            @c.ck(@sh.same?(s, m, @sh.ruby(w)), "dup-#{what}") { "a copy is #{w.to_simple_value.inspect} instead of #{@sh.simple(s, m).inspect}" }
            @c.ck(v == w && w == v, "dup-equal-#{what}", 'a value is not equal to its copy')
        when 4
            a = v.to_csv(',')
            w = s.type.wrap(v.to_byte_array)
            b = w.to_csv(',')
            @c.ck(a == b, "csv-#{what}") { "to_csv gives #{a} instead of #{b}" }
            @c.ck(v.inspect.kind_of?(String) && v.to_s.kind_of?(String), 'inspect', 'no text')
            PP.pp(v, String.new)
        when 5
            got = v.to_json_value
            JSON.generate([clean_json(got)])
            @c.ck(@sh.simple_same?(s, json(s, m), got), "json-#{what}") { "to_json_value returned #{got.inspect} instead of #{@sh.simple(s, m).inspect}" } if finite?(m)
        when 6
            v.apply_changes_from_converted_types
            d = raw_differs(v, s, m)
            @c.ck(!d, "raw-#{what}") { "raw access: #{d}" }
        when 7
            if swappable?(s)
                w = v.endian_swap
                v.endian_swap!
                @c.ck(w.memory_eql?(v) || !memcpy?(s), "swap-#{what}") { "endian_swap and endian_swap! have different results" }
                v.endian_swap!
                w = w.endian_swap
                @c.ck(@sh.same?(s, m, @sh.ruby(w)), "swap-back-#{what}") { "endian_swap twice: #{w.to_simple_value.inspect} instead of #{@sh.simple(s, m).inspect}" }
            end
        end
        @c.ck(@sh.same?(s, m, @sh.ruby(v)), "value-#{what}") { "reading returned #{v.to_simple_value.inspect} instead of #{@sh.simple(s, m).inspect}" }
        @c.count("read #{how}")
    end
    # the padding of a value is not copied
    def memcpy?(s)
        case s.kind
        when :struct then false
        when :array then memcpy?(s.elem)
        else true
        end
    end
    def swappable?(s)
        case s.kind
        when :struct then s.fields.values.all? { |f| swappable?(f) }
        when :array then swappable?(s.elem)
        when :vector, :string then false
        else true
        end
    end
    def finite?(m)
        case m
        when Float then m.finite?
        when Array then m.all? { |x| finite?(x) }
        when Hash then m.values.all? { |x| finite?(x) }
        else true
        end
    end
    def json(_s, m); m end
    def clean_json(v)
        case v
        when Hash then v.map { |k, x| [k, clean_json(x)] }.to_h
        when Array then v.map { |x| clean_json(x) }
        when String then v.b.inspect
        else v
        end
    end
    def raw_differs(v, s, m); Shapes.raw_differs(v, s, m) end

    # ---- one change at a random place of the value
    def change(v, s, m, path = '')
        case s.kind
        when :struct
            f, fs = @r.pick(s.fields.to_a)
            return change(raw(v) { v.raw_get(f) }, fs, m[f], path + ".raw_#{f}") if nested?(fs) && @r.chance(@deep ? 5 : 1, 6)
            return change(child(v, f, fs), fs, m[f], path + ".#{f}") if nested?(fs) && @r.chance(3, 5)
            x = @sh.value(fs)
            g = give(fs, x)
            way = @deep && @r.chance(1, 2) ? 2 : @r.below(5)
            @c.step("#{path}.#{f} = #{g.inspect} [#{way}]")
            wrong_length(v, f, fs, m[f]) if fs.kind == :array && !fs.converted?
            case way
            when 0 then v.set(f, g)
            when 1 then v[f] = g
            when 2 then v.send("#{f}=", g)
            when 3 then v.set_hash(f => g)
            else v.set_field(f, g)
            end
            # the object given for a converted array is what the field is now, hashes it
            # contains become structures once it is applied
            if way == 2 && fs.kind != :struct && nested?(fs)
                v.apply_changes_from_converted_types
                v.invalidate_changes_from_converted_types
            end
            m[f] = x
        when :array
            i = @r.below(m.size)
            return change(raw(v) { v.raw_get(i) }, s.elem, m[i], path + ".raw(#{i})") if nested?(s.elem) && v.kind_of?(Typelib::Type) && @r.chance(@deep ? 5 : 1, 6)
            return change(v[i], s.elem, m[i], path + "[#{i}]") if nested?(s.elem) && linked?(v, s.elem) && @r.chance(3, 5)
            x = @sh.value(s.elem)
            g = give_element(v, s.elem, x)
            @c.step("#{path}[#{i}] = #{g.inspect}")
            v[i] = g
            m[i] = x
        when :vector
            if !m.empty? && nested?(s.elem) && v.kind_of?(Typelib::Type) && @r.chance(@deep ? 5 : 1, 6)
                i = @r.below(m.size)
                return change(raw(v) { v.raw_get(i) }, s.elem, m[i], path + ".raw(#{i})")
            end
            if !m.empty? && nested?(s.elem) && linked?(v, s.elem) && @r.chance(1, 2)
                i = @r.below(m.size)
                return change(v[i], s.elem, m[i], path + "[#{i}]")
            end
            v.kind_of?(Array) ? array_operation(v, s, m, path) : container_operation(v, s, m, path)
        end
    end
    # raw access sees what has been applied
    def raw(v)
        @c.count('raw navigation')
        v.apply_changes_from_converted_types
        v.invalidate_changes_from_converted_types
        yield
    end
    # arrays that fields are converted to are linked to the field when they come from its accessor
    def child(v, f, s)
        return v.send(f) if s.kind != :struct && s.converted?
        case @r.below(4)
        when 0 then v.get(f)
        when 1 then v[@r.chance(1, 2) ? f : f.to_sym]
        when 2 then v.get_field(f)
        else v.send(f)
        end
    end
    # those that elements of containers are converted to are not
    def linked?(v, elem); v.kind_of?(Array) || elem.kind == :struct || !elem.converted? end
    def nested?(s); [:struct, :array, :vector].include?(s.kind) end

    def container_operation(v, s, m, path)
        op = @r.below(10)
        xs = Array.new(@r.range(1, 3)) { @sh.value(s.elem) }
        gs = xs.map { |x| give(s.elem, x) }
        case op
        when 0..1
            @c.step("#{path}.push #{gs.inspect}")
            v.push(*gs)
            m.concat(xs)
        when 2
            @c.step("#{path} << #{gs[0].inspect}")
            v << gs[0]
            m << xs[0]
        when 3
            @c.step("#{path}.concat #{gs.inspect}")
            v.concat(gs)
            m.concat(xs)
        when 4..5
            return if m.empty?
            i = @r.below(m.size)
            @c.step("#{path}[#{i}] = #{gs[0].inspect}")
            @r.chance(1, 2) ? v[i] = gs[0] : v.set(i, gs[0])
            m[i] = xs[0]
        when 6
            return if m.empty?
            # the first equal element is removed
            i = @r.below(m.size)
            target = v.raw_get(i)
            v.apply_changes_from_converted_types
            same = (0...m.size).find { |k| v.raw_get(k) == target }
            el = s.elem.type.new(target)
            @c.step("#{path}.erase [#{i}] (#{same})")
            r = v.erase(s.elem.numeric? ? el.to_ruby : el)
            @c.ck(r == true, 'erase', "erase returned #{r.inspect}")
            m.delete_at(same)
        when 7
            k = @r.range(1, 3)
            n = 0
            seen = []
            @c.step("#{path}.delete_if every #{k}")
            v.delete_if { |e| seen << [@sh.same?(s.elem, m[n], @sh.ruby(e)), n]; n += 1; n % k == 0 }
            @c.ck(n == m.size && seen.all?(&:first), 'delete-if') { "delete_if went through #{n} of #{m.size} elements, #{seen.reject(&:first).map(&:last)} being wrong" }
            j = 0
            m.delete_if { j += 1; j % k == 0 }
        when 8
            @c.step("#{path}.clear")
            v.clear
            m.clear
        when 9
            n = 0
            v.each_with_index { |e, i| @c.ck(@sh.same?(s.elem, m[i], @sh.ruby(e)), 'each') { "each gave a wrong element #{i}: #{e.inspect}" }; n += 1 }
            @c.ck(n == m.size && v.size == m.size && v.length == m.size && v.empty? == m.empty?, 'size') { "#{n} elements, size #{v.size} instead of #{m.size}" }
            return if m.empty?
            i = @r.below(m.size)
            l = @r.range(0, m.size - i)
            w = v[i, l]
            @c.step("#{path}[#{i}, #{l}]")
            @c.ck(@sh.same?(s, m[i, l], @sh.ruby(w)), 'slice') { "[#{i}, #{l}] returned #{w.inspect} instead of #{m[i, l].inspect}" }
        end
        @c.count('container operations')
    end

    # an array has as many elements as its type says
    def wrong_length(v, f, fs, old)
        given = Array.new(old.size) { @sh.given(fs.elem, @sh.value(fs.elem)) }
        @r.chance(1, 2) && !given.empty? ? given.pop : given.push(@sh.given(fs.elem, @sh.value(fs.elem)))
        @c.step("#{f} = #{given.size} elements for #{old.size}")
        way = @r.below(3)
        refused = begin
                      case way
                      when 0 then v.set(f, given)
                      when 1 then v[f] = given
                      else v.send("#{f}=", given)
                      end
                      false
                  rescue ArgumentError, TypeError
                      true
                  end
        @c.ck(refused, 'array-length') { "#{given.size} elements are accepted for the #{old.size} of #{f}" }
        @c.ck(@sh.same?(fs, old, @sh.ruby(v.get(f))), 'array-length-change') { "#{given.size} elements are refused for the #{old.size} of #{f}, which changes all the same" }
        @c.count('arrays of a wrong length')
    end

    def array_operation(v, s, m, path)
        op = @r.below(12)
        xs = Array.new(@r.range(1, 3)) { @sh.value(s.elem) }
        gs = xs.map { |x| give_element(v, s.elem, x) }
        @c.step("#{path} as array: #{op} #{gs.inspect}")
        case op
        when 0 then v << gs[0]; m << xs[0]
        when 1 then v.concat(gs); m.concat(xs)
        when 2 then i = @r.below(m.size + 1); v.insert(i, *gs); m.insert(i, *xs)
        when 3 then v.pop; m.pop
        when 4 then v.shift; m.shift
        when 5 then v.clear; m.clear
        when 6 then return if m.empty?; i = @r.below(m.size); v.delete_at(i); m.delete_at(i)
        when 7 then return if m.empty?; i = @r.below(m.size); v[i] = gs[0]; m[i] = xs[0]
        when 8 then v.rotate!; m.rotate!
        when 9 then v.reverse!; m.reverse!
        when 10 then v.unshift(*gs); m.unshift(*xs)
        when 11 then k = -1; v.select! { (k += 1) % 2 == 0 }; k = -1; m.select! { (k += 1) % 2 == 0 }
        end
        @c.count('array operations')
    end

    def other_registry
        @other ||= Typelib::Registry.from_xml(@sh.registry.to_xml)
    end

    # ---- something with the whole value
    def whole
        op = @r.below(10)
        case op
        when 0
            @c.step("dup")
            @copies << [@v.dup, @sh.deep(@m)]
        when 1
            @c.step("the copy becomes the value")
            w = @v.dup
            @copies << [@v, @sh.deep(@m)]
            @v = w
        when 2
            m = @sh.value(@s)
            @c.step("copy from another value #{m.inspect}")
            w = @s.type.new(give(@s, m))
            Typelib.copy(@v, w)
            @copies << [w, m]
            @m = @sh.deep(m)
        when 3
            @c.step("copy to another value")
            w = @s.type.new(give(@s, @sh.value(@s)))
            @r.below(4).times { change(w, @s, @sh.deep(@m)) if false }
            Typelib.copy(w, @v)
            @copies << [w, @sh.deep(@m)]
        when 4
            m = @sh.value(@s)
            w = @s.type.new(give(@s, m))
            touch(w, @s)
            @c.step("from_buffer #{m.inspect}")
            @v.from_buffer(w.to_byte_array)
            @m = m
        when 5
            @c.step("reloaded from the marshalled form")
            @copies << [@v, @sh.deep(@m)]
            @v = @s.type.wrap(@v.to_byte_array)
        when 6
            t = other_registry.build(@s.name)
            m = @sh.value(@s)
            w = t.new(give_plain(@s, m))
            @c.step("copy from an equivalent type #{m.inspect}")
            @c.ck(t.casts_to?(@s.type) && @s.type.casts_to?(t), 'casts', "#{t} does not cast to #{@s.type}, its equivalent")
            Typelib.copy(@v, w)
            @c.ck(@v == w, 'equivalent-equal', "a value is not equal to the value of the equivalent type it is a copy of")
            @m = m
        when 7
            t = other_registry.build(@s.name)
            w = t.new
            @c.step("cast to an equivalent type")
            Typelib.copy(w, @v)
            x = Typelib.from_ruby(w, @s.type)
            @c.ck(x.kind_of?(@s.type) && @sh.same?(@s, @m, @sh.ruby(x)), 'cast') { "cast and copied to another registry: #{x.to_simple_value.inspect} instead of #{@sh.simple(@s, @m).inspect}" }
        when 8
            return unless @s.kind == :struct
            m = @sh.value(@s)
            w = @s.type.new(give(@s, m))
            f, fs = @r.pick(@s.fields.to_a)
            @c.step("#{f} from another value's: #{m[f].inspect}")
            case @r.below(3)
            when 0 then @v.set(f, w.get(f))
            when 1 then @v.send("#{f}=", w.send(f))
            else @v.set(f, w.raw_get(f))
            end
            @copies << [w, m] unless nested?(fs) || fs.kind == :string
            @m[f] = @sh.deep(m[f])
        when 9
            m = @sh.value(@s)
            touch(@v, @s)
            @c.step("zero! and #{m.inspect}")
            @v.zero!
            zero_check(@v, @s)
            set_all(@v, @s, m)
            @m = m
        end
        @c.count("whole #{op}")
    end
    # fills the caches
    def touch(v, s)
        Typelib.to_ruby(v).to_s
        v.to_simple_value if @r.chance(1, 2)
        v.each_field { |_, x| x.inspect } if s.kind == :struct
    end
    def zero_check(v, s)
        case s.kind
        when :struct
            s.fields.each { |f, t| zero_check(v.get(f), t) unless t.kind == :enum }
        when :array
            s.length.times { |i| zero_check(v[i], s.elem) } unless s.elem.kind == :enum
        when :vector then @c.ck(v.to_a.empty?, 'zero', "a vector has #{v.to_a.size} elements after zero!")
        when :string, :chars then @c.ck(v.to_str.empty?, 'zero', "a string is #{v.inspect} after zero!")
        when :bool then @c.ck(v == false, 'zero', "a boolean is #{v.inspect} after zero!")
        else @c.ck(v == 0, 'zero', "a number is #{v.inspect} after zero!")
        end
    end
    def set_all(v, s, m)
        case s.kind
        when :struct then m.each { |f, x| v.set(f, @sh.given(s.fields[f], x)) }
        when :array then m.each_with_index { |x, i| v[i] = @sh.given(s.elem, x) }
        when :vector then v.concat(m.map { |x| @sh.given(s.elem, x) })
        end
    end
    def give_plain(s, m); @sh.given(s, m) end

    def run
        @sh = Shapes.new(Typelib::CXXRegistry.new, @r)
        depth = @r.range(1, 3)
        @s = case @r.below(10)
             when 0..6 then @sh.random_struct(depth)
             when 7..8 then @sh.vector(@sh.random(depth - 1))
             else s = @sh.array(@sh.random(depth - 1), @r.range(1, 3)); s.kind == :chars ? @sh.array(@sh.int('/uint16_t'), 2) : s
             end
        @c.desc(@s.to_s)
        @m = @sh.value(@s)
        g = give(@s, @m)
        @c.step("new #{g.inspect}")
        @v = @s.type.new(g)
        @copies = []
        read_all(@v, @s, @m, 'new')
        n = @r.range(3, @c.thorough ? 25 : 14)
        history = []
        n.times do
            case @r.below(8)
            when 0..1 then whole
            when 2
                # nothing but what is changed is accessed in a fresh copy
                @c.step('in a fresh copy: ')
                @v = @v.dup
                @deep = true
                change(@v, @s, @m)
                @deep = false
            else change(@v, @s, @m)
            end
            read_all(@v, @s, @m, 'changed') if @r.chance(4, 5)
            @copies.each { |w, m| read_all(w, @s, m, 'copied') } if @r.chance(1, 4)
            # what was copied is changed too, which has no effect on the value
            if !@copies.empty? && @r.chance(1, 6)
                w, m = @r.pick(@copies)
                @c.step('in a copy: ')
                change(w, @s, m)
            end
            @copies.shift if @copies.size > 3
        end
        read_all(@v, @s, @m, 'changed')
        @copies.each { |w, m| read_all(w, @s, m, 'copied') }
        @c.sig("#{@s} #{@m}")
        @c.sample("#{@s} = #{@m.inspect}")
    end
end
Core.main(RULE, Case)
