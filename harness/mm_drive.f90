! Drives the concurrent matrix product directly. Arguments: n m el seed, repeated
program drive
    use matmult_mod
    implicit none
    real(8), allocatable :: a(:, :), b(:, :), c(:, :)
    integer :: n, m, el, seed, q, i, j, k
    do q = 1, command_argument_count() - 3, 4
        n = arg(q)
        m = arg(q + 1)
        el = arg(q + 2)
        seed = arg(q + 3)
        allocate(a(n, m), b(m, el), c(n, el))
        do j = 1, m
            do i = 1, n
                a(i, j) = val(i, j, 1)
            enddo
        enddo
        do k = 1, el
            do j = 1, m
                b(j, k) = val(j, k, 2)
            enddo
        enddo
        c = 12345
        call matmult1(a, b, c)
        do k = 1, el
            do i = 1, n
                write(*, '(a, es25.17e3)') 'C ', c(i, k)
            enddo
        enddo
        deallocate(a, b, c)
    enddo
contains
    integer function arg(q)
        integer, intent(in) :: q
        character(len=32) :: s
        call get_command_argument(q, s)
        read(s, *) arg
    end function
    real(8) function val(i, j, w)
        integer, intent(in) :: i, j, w
        val = (mod(i*7919 + j*104729 + w*31 + seed*17, 2003) - 1001)*0.25d0
    end function
end program
