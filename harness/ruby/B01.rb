require_relative 'shapes'
RULE = "each case builds a structure, an array and a vector of random scalar, enum, string and character array types, and writes random values " \
       "of the type's whole domain, and objects that are not in it, through every way the bindings offer; what is read back and the memory itself are " \
       "compared with a model after every write. Non-trivial: at least one write was read back; distinct by types and written values."

class Case
    def self.setup(ctx)
        @@bad = [nil, [], {}, Object.new, :nothing_like_it, "not a symbol of it", Class]
    end
    def initialize(ctx); @c, @r = ctx, ctx.rng end

    def read(v, s, way)
        case way
        when 0 then v
        when 1 then Typelib.to_ruby(v)
        end
    end

    # changes made through converted fields reach the memory when they are applied
    def check_all
        @v.apply_changes_from_converted_types if applied = @r.chance(1, 2)
        @c.ck(@sh.same?(@st, @m, @v), 'value') { "reading the structure: #{@v.to_simple_value.inspect} instead of #{@sh.simple(@st, @m).inspect} (#{@st})" }
        @st.fields.each do |f, s|
            got = case @r.below(4)
                  when 0 then @v.get(f)
                  when 1 then @v[f]
                  when 2 then applied ? @sh.ruby(@v.raw_get(f)) : @v.get_field(f)
                  else @v.send(f)
                  end
            @c.ck(@sh.same?(s, @m[f], @sh.ruby(got)), "value:#{s.kind}") { "field #{f} of #{@st} reads as #{got.inspect} instead of #{@m[f].inspect}" }
        end
        @v.apply_changes_from_converted_types
        d = @sh.memory_differs(@st, @m, @v.zone_address)
        @c.ck(!d, 'memory') { "memory of the structure: #{d}" }
        @st.fields.each_with_index do |(f, s), i|
            a, b = @st.offsets[f] + s.size, @st.offsets.values[i + 1] || @st.size
            gap = raw_memory(@v.zone_address + a, b - a)
            @c.ck(gap == @gaps[i], 'padding-written') { "bytes #{a}...#{b} of #{@st} were modified" }
        end
        first_access if @r.chance(1, 3)
    end

    # what an object reads first does not depend on what was done with others
    def first_access
        w = @r.chance(1, 2) ? @v.dup : @st.type.wrap(@v.to_byte_array)
        f, s = @r.pick(@st.fields.to_a)
        way = @r.pick([:get, :[], :get_field, :send, :raw_get, :hash, :to_ruby, :each])
        got = case way
              when :send then w.send(f)
              when :hash then w.to_simple_value[f]
              when :to_ruby then Typelib.to_ruby(w).get(f)
              when :each then w.each_field.find { |n, _| n.to_s == f }.last
              else w.send(way, f)
              end
        @c.count("first accesses by #{way}")
        ok = way == :hash ? @sh.simple_same?(s, @m[f], got) : @sh.same?(s, @m[f], @sh.ruby(got))
        @c.ck(ok, "first:#{s.kind}:#{way}") { "field #{f} of a new #{@st} reads as #{got.inspect} instead of #{@m[f].inspect}" }
    end

    def run
        @sh = Shapes.new(Typelib::CXXRegistry.new, @r)
        names = %w{f0 x1 value y2 data0 pos_z Q k7}.first(@r.range(1, 7))
        @st = @sh.struct(names.map { |n| [n, @r.chance(1, 12) ? @sh.string : @r.chance(1, 10) ? @sh.chars : @sh.scalar] }.to_h)
        @c.desc(@st.to_s)
        @v = @st.type.zero
        @m = @sh.value(@st)
        how = @r.below(3)
        g = @sh.given(@st, @m)
        case how
        when 0 then @st.fields.each_key { |f| @v.set_field(f, @sh.given(@st.fields[f], @m[f])) }
        when 1 then @v.set_hash(@m.map { |f, x| [f, @sh.given(@st.fields[f], x)] }.to_h)
        else @v = @st.type.new(g.kind_of?(Hash) ? g : g)
        end
        @gaps = @st.fields.each_with_index.map do |(f, s), i|
            a, b = @st.offsets[f] + s.size, @st.offsets.values[i + 1] || @st.size
            raw_memory(@v.zone_address + a, b - a)
        end
        check_all
        @r.range(2, 10).times { @r.chance(1, 5) ? bad_write : write }
        elements(@sh.array(@r.pick(@st.fields.values)))
        e = @r.pick(@st.fields.values)
        elements(@sh.vector(e.kind == :bool ? @sh.int : e))
        standalone(@r.pick(@st.fields.values))
        @c.sig("#{@st} #{@m}")
        @c.sample("#{@st} = #{@m.inspect}")
    end

    def write
        f, s = @r.pick(@st.fields.to_a)
        x = @sh.value(s)
        g = @sh.given(s, x)
        way = @r.below(6)
        @c.step("#{f}(#{s.kind}) = #{g.inspect} [#{way}]")
        case way
        when 0 then @v.set(f, g)
        when 1 then @v[f] = g
        when 2 then @v.send("#{f}=", g)
        when 3 then @v.set_hash(f => g)
        when 4
            if s.scalar? && s.kind != :bool then @v.raw_set(f, g)
            else @v.set_field(f, g)
            end
        else @v.set(f, Typelib.from_ruby(g, s.type))
        end
        @m[f] = x
        check_all
        @c.count("writes of #{s.kind}")
    end

    # what cannot be represented is refused, and nothing is modified
    def bad_write
        f, s = @r.pick(@st.fields.to_a)
        bad = case s.kind
              when :int, :float, :enum then @r.pick(@@bad)
              when :bool then @r.pick([nil, [], "x", Object.new])
              when :string then @r.pick([nil, 12, [[]], Object.new])
              when :chars then @r.pick([nil, 12, "x" * s.length, "y" * (s.length + 30), "\u00e9" * s.length, Object.new])
              end
        bad = @r.pick([s.values.values.max + 1, s.values.values.min - 1, 2**40, 2**70, -2**64, 1.5]) if s.kind == :enum && @r.chance(1, 2)
        bad = "" if bad == "x" && s.kind == :chars && s.length < 1
        return if s.kind == :enum && s.values.value?(bad)
        @c.step("#{f}(#{s.kind}) = #{bad.inspect} (refused)")
        e = raised { @r.chance(1, 2) ? @v.set(f, bad) : @v[f] = bad }
        @c.ck(e, "accepted:#{s.kind}") { "#{bad.inspect} was accepted for #{f}, a #{s}" }
        check_all
        @c.count('refused writes')
    end

    def elements(s)
        v = s.type.zero
        m = @sh.value(s)
        @c.step("#{s} = #{m.inspect}")
        if s.kind == :chars
            v = Typelib.from_ruby(m, s.type)
            @c.ck(@sh.same?(s, m, v.to_ruby), 'elements') { "#{v.to_ruby.inspect} instead of #{m.inspect}" }
            return
        end
        if s.kind == :array
            m.each_with_index { |x, i| v[i] = @sh.given(s.elem, x) }
        else
            m.each { |x| @r.chance(1, 2) ? v.push(@sh.given_element(s.elem, x)) : v.concat([@sh.given_element(s.elem, x)]) }
        end
        3.times do
            check = lambda do
                @c.ck(@sh.same?(s, m, v), 'elements') { "#{s} reads as #{v.to_simple_value.inspect} instead of #{m.inspect}" }
                d = @sh.memory_differs(s, m, v.zone_address)
                @c.ck(!d, 'element-memory') { "memory of #{s}: #{d}" }
            end
            check.call
            break if m.empty?
            i = @r.below(m.size)
            x = @sh.value(s.elem)
            @c.step("[#{i}] = #{x.inspect}")
            v[i] = s.kind == :array ? @sh.given(s.elem, x) : @sh.given_element(s.elem, x)
            m[i] = x
            got = v[i]
            @c.ck(@sh.same?(s.elem, x, @sh.ruby(got)), 'element') { "#{s}[#{i}] reads as #{got.inspect} instead of #{x.inspect}" }
            check.call
            [m.size, m.size + 5, -1].each do |k|
                e = raised { v[k] }
                @c.ck(e, 'out-of-bounds') { "#{s}[#{k}] returned #{v[k].inspect} with #{m.size} elements" }
                e = raised { v[k] = @sh.given(s.elem, x) }
                @c.ck(e, 'out-of-bounds') { "#{s}[#{k}]= was accepted with #{m.size} elements" }
            end
            @c.ck(v.each.to_a.size == m.size && v.size == m.size, 'size') { "size #{v.size}, each #{v.each.to_a.size}, model #{m.size}" }
        end
        @c.count("#{s.kind}s of #{s.elem.kind}")
    end

    def standalone(s)
        x = @sh.value(s)
        v = s.type.new(@sh.given(s, x))
        @c.step("new #{s} #{x.inspect}")
        @c.ck(@sh.same?(s, x, v.to_ruby), "standalone:#{s.kind}") { "#{s}.new(#{x.inspect}) reads as #{v.to_ruby.inspect}" }
        d = @sh.memory_differs(s, x, v.zone_address)
        @c.ck(!d, "standalone-memory:#{s.kind}") { "#{s}.new(#{x.inspect}): #{d}" }
        w = s.type.wrap(v.to_byte_array)
        @c.ck(@sh.same?(s, x, w.to_ruby) || (x.kind_of?(Float) && x.nan?), "reloaded:#{s.kind}") { "marshalled and reloaded: #{w.to_ruby.inspect} instead of #{x.inspect}" }
        @c.ck(x.kind_of?(Float) && x.nan? || v == w, 'equal') { "a reloaded #{s} is not equal to its source #{x.inspect}" }
    end
end
class Shapes
    # elements of containers can be given as values, numbers, and whatever has a declared conversion
    def given_element(s, x)
        s.numeric? ? given(s, x) : Typelib.from_ruby(given(s, x), s.type)
    end
end
Core.main(RULE, Case)
