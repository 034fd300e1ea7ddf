require_relative 'shapes'
RULE = "each case holds objects for random parts of a nested value and modifies the value through any of them: assignments, pushes, erasures, copies from inside and outside, memory copies, " \
       "reloads and zeroing; after every step each held object is used and either shows the content of its place in a model or raises because the place is gone. Non-trivial: at least three " \
       "held objects were used after a modification that could move them; distinct by type and history."

class Case
    Held = Struct.new(:w, :path, :shape)
    def initialize(ctx); @c, @r = ctx, ctx.rng end

    def at(path)
        path.inject(@m) do |m, k|
            return m if m.equal?(Missing)
            return k < m.bytesize ? [m.getbyte(k)].pack('C').unpack1('c') : Missing if m.kind_of?(String)
            return Missing if m.kind_of?(Array) && k >= m.size
            m[k]
        end
    end
    Missing = Object.new
    def put(path, x)
        if path.empty? then @m = x
        elsif (m = at(path[0..-2])).kind_of?(String)
            m = m.b
            m.setbyte(path[-1], x & 0xff)
            put(path[0..-2], m)
        else at(path[0..-2])[path[-1]] = x
        end
    end
    def text(path); "root" + path.map { |k| k.kind_of?(Integer) ? "[#{k}]" : ".#{k}" }.join end

    # goes down to a random place: its object, path and shape
    def walk(w = @v, path = [], s = @s, stop = 4)
        m = at(path)
        return [w, path, s] if @r.chance(1, stop)
        case s.kind
        when :struct
            f = @r.pick(s.fields.keys)
            walk(get(w, f), path + [f], s.fields[f], stop)
        when :array, :vector
            return [w, path, s] if m.empty?
            i = @r.below(m.size)
            walk(get(w, i), path + [i], s.elem, stop)
        when :string
            return [w, path, s] if m.empty? || @r.chance(1, 2)
            i = @r.below(m.bytesize)
            @c.count('characters of strings')
            [w.raw_each.to_a[i], path + [i], @char]
        else [w, path, s]
        end
    end
    def get(w, k)
        case @r.below(3)
        when 0 then w.raw_get(k)
        when 1 then k.kind_of?(Integer) ? w.raw_each.to_a[k] : w.raw_get_field(k)
        else k.kind_of?(Integer) ? w.raw_get(k) : w.send("raw_#{k}")
        end
    end
    def hold
        w, path, s = walk
        return if path.empty?
        @held << Held.new(w, path, s)
        @held.shift if @held.size > 15
        @c.step("hold #{text(path)}")
    end
    # any object: the value, a part of it, or something held
    def target
        h = @held.select { |x| !x.w.invalidated? && at(x.path) != Missing }
        return walk(@v, [], @s, 5) if h.empty? || @r.chance(1, 2)
        h = @r.pick(h)
        @r.chance(1, 2) ? [h.w, h.path, h.shape] : walk(h.w, h.path, h.shape, 3)
    end
    def enums?(s)
        s.kind == :enum || (s.elem && enums?(s.elem)) || (s.fields && s.fields.values.any? { |f| enums?(f) })
    end
    def zero(s)
        case s.kind
        when :int then 0
        when :float then 0.0
        when :bool then false
        when :string, :chars then ''.b
        when :vector then []
        when :array then Array.new(s.length) { zero(s.elem) }
        when :struct then s.fields.map { |f, t| [f, zero(t)] }.to_h
        end
    end
    def fresh(s)
        x = @sh.value(s)
        [s.type.new(@sh.given(s, x)), x]
    end

    # a modification; true when it could not move anything
    def change
        w, path, s = target
        return string(w, path) if s.kind == :string && @r.chance(1, 2)
        return general(w, path, s) if @r.chance(1, 4) || !(s.elem || s.fields) || s.kind == :chars
        case s.kind
        when :struct
            f = @r.pick(s.fields.keys)
            t = s.fields[f]
            y, x = fresh(t)
            y, x = w.raw_get(f), @sh.deep(at(path + [f])) if @r.chance(1, 12)
            @c.step("#{text(path)}.#{f} = #{x.inspect}")
            case @r.below(3)
            when 0 then w.raw_set(f, y)
            when 1 then w.raw_set_field(f, y)
            else w.send("raw_#{f}=", y)
            end
            put(path + [f], x)
            t.scalar? || t.kind == :chars
        when :array
            i = @r.below(s.length)
            y, x = fresh(s.elem)
            y, x = w.raw_get(@k = @r.below(s.length)), @sh.deep(at(path + [@k])) if @r.chance(1, 6)
            @c.step("#{text(path)}[#{i}] = #{x.inspect}")
            w.raw_set(i, y)
            put(path + [i], x)
            s.elem.scalar?
        when :vector then vector(w, path, s)
        end
    end
    def general(w, path, s)
        case @r.below(6)
        when 0..1
            y, x = fresh(s)
            @c.step("copy #{x.inspect} to #{text(path)}")
            Typelib.copy(w, y)
            put(path, x)
        when 2
            y, x = fresh(s)
            b = y.to_byte_array
            @c.step("#{text(path)}.from_buffer #{x.inspect}")
            w.from_buffer(b)
            put(path, x)
        when 3
            return true if enums?(s)
            @c.step("#{text(path)}.zero!")
            w.zero!
            put(path, zero(s))
        when 4
            # from another place of the same type
            a, p2, = (1..8).map { walk }.find { |_, p2, t| t.name == s.name && p2 != path }
            return true unless a
            @c.step("copy #{text(p2)} to #{text(path)}")
            @c.count('copies from inside')
            x = @sh.deep(at(p2))
            Typelib.copy(w, a)
            put(path, x)
        when 5
            d = w.dup
            @copies << [d, s, @sh.deep(at(path))]
            @c.step("dup #{text(path)}")
            return true
        end
        s.scalar? || s.kind == :chars
    end
    def string(w, path)
        m = at(path)
        case @r.below(3)
        when 0
            x = @sh.text(@r.pick([1, 3, 10, 30, 100]))
            @c.step("#{text(path)}.concat #{x.inspect}")
            w.concat(x)
            put(path, m.b + x)
        when 1
            @c.step("#{text(path)}.clear")
            w.clear
            put(path, ''.b)
        when 2
            return true if m.empty?
            x = [m.getbyte(@r.below(m.bytesize))].pack('C')
            @c.step("#{text(path)}.push its own #{x.inspect}")
            w.push(w.raw_each.to_a[m.b.index(x)])
            put(path, m.b + x)
        end
        false
    end
    def vector(w, path, s)
        m = at(path)
        ys = Array.new(@r.chance(1, 4) ? @r.range(8, 30) : @r.range(1, 2)) { fresh(s.elem) }
        xs = ys.map(&:last)
        ys = ys.map(&:first)
        case @r.below(10)
        when 0..2
            @c.step("#{text(path)}.push #{ys.size} #{xs[0].inspect}")
            @r.chance(1, 2) ? w.push(*ys) : w.concat(ys)
            m.concat(xs)
        when 3
            return true if m.empty?
            own = Array.new(@r.range(1, 3)) { @r.below(m.size) }
            @c.step("#{text(path)}.push its own #{own.inspect}")
            @c.count('own elements pushed')
            xs = own.map { |i| @sh.deep(m[i]) }
            own.each { |i| w.push(w.raw_get(i)) }
            m.concat(xs)
        when 4
            return true if m.empty?
            i = @r.below(m.size)
            @c.step("#{text(path)}[#{i}] = #{xs[0].inspect}")
            w.raw_set(i, ys[0])
            m[i] = xs[0]
            return s.elem.scalar?
        when 5
            return true if m.empty?
            el = w.raw_get(@r.below(m.size))
            i = (0...m.size).find { |k| w.raw_get(k) == el }
            el = el.dup if @r.chance(1, 2)
            @c.step("#{text(path)}.erase [#{i}]")
            return true unless i # NaN
            ok = w.erase(s.elem.numeric? ? el.to_ruby : el)
            @c.ck(ok, 'erase', "erase returned #{ok.inspect}")
            m.delete_at(i)
        when 6
            k, n, j = @r.range(1, 3), -1, -1
            @c.step("#{text(path)}.delete_if every #{k}")
            w.delete_if { (n += 1) % k == 0 }
            m.delete_if { (j += 1) % k == 0 }
        when 7
            @c.step("#{text(path)}.clear")
            w.clear
            m.clear
        when 8
            return true unless s.elem.numeric?
            b = ys.map { |y| y.to_byte_array }.join
            @c.step("#{text(path)}.raw_memcpy #{xs.inspect}")
            w.raw_memcpy(address(b), b.size)
            m.replace(xs)
        when 9
            ys2 = s.type.new
            ys2.concat(ys)
            @c.step("copy #{ys.size} elements to #{text(path)}")
            Typelib.copy(w, ys2)
            m.replace(xs)
        end
        false
    end
    def address(b); Fiddle::Pointer[b].to_i end

    def look
        d = @sh.memory_differs(@s, @m, @v.zone_address)
        @c.ck(!d, 'memory') { "the value itself: #{d}" }
        d = Shapes.raw_differs(@v, @s, @m)
        @c.ck(!d, 'value') { "the value itself: #{d}" }
        @held.delete_if do |h|
            m = at(h.path)
            if h.w.invalidated?
                e = raised { h.shape.kind == :struct ? h.w.raw_get(h.shape.fields.keys[0]) : h.w.to_byte_array }
                @c.ck(e.kind_of?(TypeError), 'invalid-use') { "using an invalidated object #{e ? "raised #{e.class}: #{e.message}" : 'worked'}" }
                e = raised { Typelib.copy(h.w, h.shape.type.new) }
                @c.ck(e.kind_of?(TypeError), 'invalid-copy') { "copying to an invalidated object #{e ? "raised #{e.class}: #{e.message}" : 'worked'}" }
                @c.count('held objects gone')
                @gone += 1
                true
            else
                @c.ck(m != Missing, 'stale') { "the object for #{text(h.path)} is still valid although it does not exist anymore" }
                d = Shapes.raw_differs(h.w, h.shape, m)
                @c.ck(!d, 'held') { "the object held for #{text(h.path)}: #{d}" }
                @c.count('held objects used')
                @moved += 1 unless @still
                false
            end
        end
        @copies.each do |w, s, m|
            d = Shapes.raw_differs(w, s, m)
            @c.ck(!d, 'copied') { "a copy changed: #{d}" }
        end
        @copies.shift if @copies.size > 4
    end

    def run
        @sh = Shapes.new(Typelib::CXXRegistry.new, @r)
        @s = case @r.below(4)
             when 0..1 then @sh.random_struct(@r.range(2, 3))
             when 2 then @sh.vector(@sh.random(2))
             else @sh.vector(@sh.random_struct(2))
             end
        @char = Shape.new(:int, @sh.string.type.deference, signed: true)
        @v, @m = fresh(@s)
        @c.desc("#{@s} = #{@m.inspect}")
        @held, @copies, @gone, @moved = [], [], 0, 0
        @r.range(5, @c.thorough ? 40 : 20).times do
            @r.range(0, 3).times { hold }
            valid = @held.map { |h| [h, h.w.invalidated?] }
            @still = change
            if @still
                bad = @held.find { |h| h.w.invalidated? }
                @c.ck(!bad, 'needlessly') { "the object held for #{text(bad.path)} was invalidated by a change in place" }
            end
            @c.count(@still ? 'changes in place' : 'changes')
            look
            GC.start if @r.chance(1, 40)
        end
        if @moved + @gone >= 3
            @c.sig("#{@s} #{@m}")
            @c.sample("#{@s}: #{@moved} held objects used, #{@gone} gone")
        end
    end
end
Core.main(RULE, Case)
