# B14: what is frozen keeps its content
require_relative 'shapes'
require 'pp'
RULE = "one case = a random value (structures, arrays, vectors, strings up to three levels deep), some parts of which have been reached or changed before, that is frozen as a whole or in one part; " \
       "then a random history of reads, of attempts to change it or its parts by every way there is, of changes to Ruby objects, copies and other values obtained from it; after each step its memory " \
       "and all that reads it are compared with what was frozen; distinct by type and history; non-trivial when at least three attempts were refused"

class Case
    def initialize(c) @c, @r = c, c.rng end

    Part = Struct.new(:value, :shape, :path)

    def run
        @s = Shapes.new(Typelib::CXXRegistry.new, @r)
        s = @r.chance(1, 8) ? @s.random(0) : @s.random_struct(3)
        s = @s.vector(@s.random(2)) if @r.chance(1, 6)
        @c.desc("type #{s}")
        m = @s.value(s)
        v = Typelib.from_ruby(@s.given(s, m), s.type)
        o = @s.value(s)
        other = Typelib.from_ruby(@s.given(s, o), s.type)
        @parts, @copies, @refused, @log = [], [], 0, +''
        # parts that are known, and changes that are pending, when it is frozen
        @r.below(4).times { reach(Part.new(v, s, '')) }
        before(v, s, m) if s.kind == :struct && @r.chance(1, 2)
        if s.kind == :struct && @r.chance(1, 5) && (f = s.fields.keys.find { |x| [:struct, :array, :vector].include?(s.fields[x].kind) })
            return one_part(v, s, m, f)
        end
        @c.step('freeze')
        r = v.freeze
        @c.ck(r.equal?(v) && v.frozen?, 'frozen', 'freeze did not freeze')
        @parts.delete_if { |p| p.value.invalidated? }
        @c.ck(@parts.all? { |p| p.value.frozen? }, 'parts') { "#{@parts.find { |p| !p.value.frozen? }&.path} is not frozen" }
        v.freeze if @r.chance(1, 8)
        @memory = raw_memory(v.to_memory_ptr.zone_address, s.size)
        root = Part.new(v, s, '')
        check(v, s, m)
        @r.range(6, 20).times do
            case @r.below(12)
            when 0..1 then read(v, s, m)
            when 2..3 then reach(root)
            when 4..8
                p = @r.pick(@parts + [root])
                attempt(p) unless p.value.invalidated?
            when 9 then ruby_objects(v, s)
            when 10 then copies(v, s, m)
            else o = others(v, s, m, other, o)
            end
            check(v, s, m)
            @c.ck(@s.same?(s, o, @s.ruby(other)), 'other') { "another value is #{other.to_simple_value.inspect} instead of #{o.inspect}" }
            GC.start if @r.chance(1, 60)
        end
        if @refused >= 3
            @c.sig("#{s} #{@log}")
            @c.sample("#{s}: #{@log}")
        end
    end

    def check(v, s, m)
        @c.ck(v.frozen?, 'thawed', 'the value is not frozen anymore')
        d = @s.memory_differs(s, m, v.to_memory_ptr.zone_address)
        @c.ck(d.nil?, 'changed') { "the memory of a frozen value has #{d}" }
        @c.ck(raw_memory(v.to_memory_ptr.zone_address, s.size) == @memory, 'moved', 'containers of a frozen value have moved')
    end
    def read(v, s, m)
        @c.step('read')
        case @r.below(6)
        when 0 then @c.ck(@s.same?(s, m, @s.ruby(s.type.wrap(v.to_byte_array))), 'read', 'the marshalled form differs')
        when 1 then @c.ck(@s.simple_same?(s, m, got = v.to_simple_value), 'read') { "to_simple_value is #{got.inspect} instead of #{m.inspect}" }
        when 2 then @c.ck(v == Typelib.from_ruby(@s.given(s, m), s.type) || nan?(m), 'read', 'the value is not equal to its content')
        when 3 then v.inspect; v.to_s; PP.pp(v, +''); v.to_csv
        when 4 then @c.ck(!(d = Shapes.raw_differs(v, s, m)), 'read') { "raw access: #{d}" }
        else @c.ck(@s.same?(s, m, @s.ruby(v)), 'read') { "reading gives #{v.to_simple_value.inspect} instead of #{m.inspect}" }
        end
        @c.ck(@s.same?(s, m, @s.ruby(v)), 'read') { "reading gives #{v.to_simple_value.inspect} instead of #{m.inspect}" }
        @c.count('reads')
    end
    def nan?(m)
        case m
        when Float then m.nan?
        when Array then m.any? { |x| nan?(x) }
        when Hash then m.values.any? { |x| nan?(x) }
        end
    end

    # ---- parts
    def reach(p)
        @r.range(1, 3).times do
            v, s = p.value, p.shape
            case s.kind
            when :struct
                f, fs = @r.pick(s.fields.to_a)
                x = case @r.below(6)
                    when 0 then v.raw_get(f)
                    when 1 then v.respond_to?("raw_#{f}") ? v.send("raw_#{f}") : v.raw_get_field(f)
                    when 2 then v.get(f)
                    when 3 then v.send(f)
                    when 4 then v.raw_each_field.to_a.assoc(f)[1]
                    else v.each_field.to_a.assoc(f)[1]
                    end
                p = Part.new(x, fs, "#{p.path}.#{f}")
            when :array, :vector
                n = s.kind == :array ? s.length : v.size
                break if n == 0
                i = @r.below(n)
                x = case @r.below(4)
                    when 0 then v.raw_get(i)
                    when 1 then v[i]
                    when 2 then v.raw_each.to_a[i]
                    else v.each.to_a[i]
                    end
                p = Part.new(x, s.elem, "#{p.path}[#{i}]")
            else break
            end
            break unless p.value.kind_of?(Typelib::Type)
            # other forms of the same place
            if @memory && @r.chance(1, 8)
                reg = @reg2 ||= Typelib::Registry.from_xml(@s.registry.to_xml)
                p = Part.new(p.value.cast(reg.get(p.shape.name)), p.shape, p.path + '.cast') if reg.include?(p.shape.name) && p.shape.kind == :struct
            end
            @c.step("reach #{p.path}")
            @parts << p
            @c.ck(p.value.frozen?, 'part') { "#{p.path}, reached after freezing, is not frozen" } if @memory
        end
    end

    def other_value(s) Typelib.from_ruby(@s.given(s, @s.value(s)), s.type) end
    def same_kind(p, x) p.path.include?('cast') ? x.cast(p.value.class) : x end

    # tries to change a part by one of the ways; each is refused
    def attempt(p)
        v, s = p.value, p.shape
        x = @s.value(s)
        g = @s.given(s, x)
        ways = [['zero!', -> { v.zero! }], ['from_buffer', -> { v.from_buffer(other_value(s).to_byte_array) }],
                ['copy', -> { Typelib.copy(v, same_kind(p, other_value(s))) }], ['from_buffer_direct', -> { v.from_buffer_direct(other_value(s).to_byte_array) }]]
        ways << ['endian_swap!', -> { v.endian_swap! }] unless s.containers?
        case s.kind
        when :struct
            f, fs = @r.pick(s.fields.to_a)
            y = @s.given(fs, @s.value(fs))
            t = lambda { Typelib.from_ruby(y, fs.type) }
            y = t[] if @r.chance(1, 3)
            ways += [['set', -> { v.set(f, y) }], ['[]=', -> { v[f] = y }], ['accessor', -> { v.send("#{f}=", y) }], ['set_field', -> { v.set_field(f, y) }],
                     ['raw_set', -> { v.raw_set(f, t[]) }], ['raw_set_field', -> { v.raw_set_field(f, t[]) }], ['raw accessor', -> { v.send("raw_#{f}=", t[]) }],
                     ['set_hash', -> { v.set_hash(f => y) }], ['set_array', -> { v.set_array(s.fields.map { |_, q| @s.given(q, @s.value(q)) }) }]]
        when :array, :chars
            i = @r.below(s.length)
            es = s.kind == :chars ? @s.int('/int8_t') : s.elem
            y = @s.given(es, @s.value(es))
            ways += [['[]=', -> { v[i] = y }], ['raw_set', -> { v.raw_set(i, Typelib.from_ruby(y, es.type)) }]]
        when :vector
            y = @s.given(s.elem, @s.value(s.elem))
            t = lambda { Typelib.from_ruby(y, s.elem.type) }
            y = t[] if @r.chance(1, 3)
            ways += [['push', -> { v.push(y) }], ['<<', -> { v << y }], ['concat', -> { v.concat([y]) }], ['clear', -> { v.clear }], ['delete_if', -> { v.delete_if { true } }],
                     ['erase', -> { v.erase(y) }]]
            if v.size > 0
                i = @r.below(v.size)
                ways += [['[]=', -> { v[i] = y }], ['set', -> { v.set(i, y) }], ['raw_set', -> { v.raw_set(i, t[]) }], ['erase', -> { v.erase(v[i]) }]]
            end
            if s.elem.scalar?
                mem = ('a' * (8 * s.elem.size))
                ways << ['raw_memcpy', -> { v.raw_memcpy(Fiddle::Pointer[mem].to_i, mem.size) }]
            end
        when :string
            ways += [['concat', -> { v.concat('abc') }], ['clear', -> { v.clear }], ['push', -> { v.push(65) }], ['<<', -> { v << 65 }], ['delete_if', -> { v.delete_if { true } }]]
        when :int, :float, :enum
            ways << ['typelib_from_ruby', -> { v.typelib_from_ruby(g) }]
        end
        way, code = @r.pick(ways)
        @c.step("#{p.path} #{way}")
        @log << "#{p.path}#{way};"
        e = raised { code.call }
        @c.ck(e.kind_of?(TypeError), 'accepted') { "#{way} on #{p.path.empty? ? 'the frozen value' : p.path} (#{s}) gives #{e.inspect}" }
        @c.ck(v.frozen?, 'thawed', "#{p.path} is not frozen anymore after #{way}")
        @refused += 1
        @c.count("refused #{way}")
    end

    # ---- what has been obtained from it
    def ruby_objects(v, s)
        objects = case s.kind
                  when :struct then s.fields.keys.flat_map { |f| [v.send(f), v.get(f)] }
                  when :array, :vector then [v.to_ruby, v.to_a, v.each.to_a]
                  else [v.to_ruby]
                  end
        objects += [v.to_simple_value, v.to_byte_array]
        x = @r.pick(objects.reject { |q| q.kind_of?(Typelib::Type) || q.frozen? })
        return if x.nil?
        @c.step("modify the #{x.class} it gave")
        spoil(x)
        @c.count('Ruby objects modified')
    end
    def spoil(x)
        case x
        when Array
            y = x[@r.below(x.size)]
            if y.kind_of?(Array) || y.kind_of?(String) && !y.frozen? then spoil(y)
            else @r.chance(1, 2) ? x.clear : x.concat(x)
            end
        when Hash then x.clear
        when String then x.frozen? || x << 'spoilt'
        end
    end
    def copies(v, s, m)
        @c.step('copy')
        w = case @r.below(4)
            when 0 then v.dup
            when 1 then v.clone
            when 2 then s.type.from_buffer(v.to_byte_array)
            else Typelib.copy(s.type.new, v)
            end
        @c.ck(!w.frozen?, 'copy-frozen', 'a copy is frozen')
        @c.ck(@s.same?(s, m, @s.ruby(w)), 'copy') { "a copy is #{w.to_simple_value.inspect} instead of #{m.inspect}" }
        x = @s.value(s)
        w = w.from_buffer(Typelib.from_ruby(@s.given(s, x), s.type).to_byte_array)
        if s.kind == :struct
            f, fs = @r.pick(s.fields.to_a)
            x[f] = @s.value(fs)
            w.send("#{f}=", @s.given(fs, x[f]))
            @c.ck(!w.raw_get(f).frozen?, 'copy-frozen', 'a part of a copy is frozen')
        end
        @c.ck(@s.same?(s, x, @s.ruby(w)), 'copy-changed') { "a changed copy is #{w.to_simple_value.inspect} instead of #{x.inspect}" }
        @c.count('copies')
    end
    # other values of the type can be changed, also with what is frozen
    def others(v, s, m, other, o)
        @c.step('change another')
        case @r.below(4)
        when 0 then Typelib.copy(other, v); return @s.deep(m)
        when 1 then other.from_buffer(v.to_byte_array); return @s.deep(m)
        end
        if s.kind == :struct
            f, fs = @r.pick(s.fields.to_a)
            x = v.raw_get(f)
            case @r.below(3)
            when 0 then other.raw_set(f, x)
            when 1 then other.set(f, x)
            else other.send("#{f}=", v.send(f))
            end
            o = @s.deep(o)
            o[f] = @s.deep(m[f])
        elsif s.kind == :vector
            return o if v.size == 0
            i = @r.below(v.size)
            other.push(v[i])
            o = o + [@s.deep(m[i])]
        end
        @c.count('others changed')
        o
    end

    # ---- before it is frozen: changes that have not reached the memory
    def before(v, s, m)
        f, fs = @r.pick(s.fields.to_a)
        @c.step("before: .#{f}")
        m[f] = @s.value(fs)
        v.send("#{f}=", @s.given(fs, m[f]))
        if fs.kind == :vector && fs.elem.kind == :string && @r.chance(1, 2)
            v.send(f) << 'pending'
            m[f] = m[f] + ['pending']
        end
    end

    # ---- one field only
    def one_part(v, s, m, f)
        fs = s.fields[f]
        @c.step("freeze .#{f}")
        v.apply_changes_from_converted_types
        v.invalidate_changes_from_converted_types
        p = Part.new(v.raw_get(f).freeze, fs, ".#{f}")
        memory = lambda { raw_memory(p.value.to_memory_ptr.zone_address, fs.size) }
        was = memory[]
        @c.ck(!v.frozen?, 'one-part', 'a value with a frozen part is frozen')
        @r.range(3, 10).times do
            case @r.below(3)
            when 0 then attempt(p)
            when 1
                g, gs = @r.pick(s.fields.to_a)
                next if g == f
                m[g] = @s.value(gs)
                @c.step(".#{g} = #{m[g].inspect}")
                v.send("#{g}=", @s.given(gs, m[g]))
            else
                w = v.dup
                @c.ck(@s.same?(s, m, @s.ruby(w)), 'one-part-copy') { "a copy is #{w.to_simple_value.inspect} instead of #{m.inspect}" }
                @c.ck(!w.frozen? && !w.raw_get(f).frozen?, 'one-part-copy', 'a part of a copy is frozen')
            end
            @c.ck(memory[] == was, 'changed', 'the frozen part has changed')
            @c.ck(@s.same?(s, m, @s.ruby(v)), 'one-part-read') { "the value is #{v.to_simple_value.inspect} instead of #{m.inspect}" }
        end
        @c.count('parts frozen')
        @c.sig("#{s} one part #{@log}") if @refused >= 3
    end
end
Core.main(RULE, Case)
